"""Runner: generates cases, runs the real code under the monitors of a check, merges what was observed, gives a verdict.

A check module (checks/cNN.py) defines
  RULE      how cases are made and what makes one non-trivial
  KINDS     {kind: Kind(gen, check, quick, thorough)}
            gen(rng, ctx) -> JSON-able case;  check(ctx, case) -> None, or calls ctx.fail(...)
  REQUIRE   {counter: minimum over the whole run}; below it the run is inconclusive (exit 2)
  ANCHORS   files (relative to the package) whose executed lines are reported in the evidence
  setup(ctx)  optional, once per shard

Verdicts: held (0), violated (1, VIOLATION line), inconclusive (2: harness error, machine too slow, too little observed).
"""
import collections
import contextlib
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import signal
import subprocess
import sys
import threading
import time
import traceback

from vlib import boot as _boot

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')

Kind = collections.namedtuple('Kind', 'gen check quick thorough')

MAX_VIOLATIONS = 3
CASE_CPU_S = 30.
CASE_WALL_S = 240.


class Violation(Exception):
    pass


class Hang(BaseException):
    """A case used up its CPU budget: no progress"""


class Deadlock(BaseException):
    """A case used no CPU for a long time"""


class Slow(BaseException):
    """The machine was too slow to tell"""


def digest(obj):
    if not isinstance(obj, (str, bytes)):
        obj = json.dumps(obj, sort_keys=True, default=str, ensure_ascii=False)
    if isinstance(obj, str):
        obj = obj.encode('utf-8', 'surrogatepass')
    return hashlib.blake2b(obj, digest_size=8).digest()


class Ctx(object):

    def __init__(self, prop, seed, tier, shard=0, nshards=1):
        self.prop, self.seed, self.tier, self.shard, self.nshards = prop, seed, tier, shard, nshards
        self.counters = collections.Counter()
        self.sets = {}
        self.samples = []
        self.violations = []
        self.lines = {}
        self.case = None
        self.kind = None
        self.thorough = tier == 'thorough'
        self._nsample = collections.Counter()

    # What the monitors observed ------------------------------------------------
    def count(self, name, n=1):
        self.counters[name] += n

    def seen(self, name, obj):
        s = self.sets.setdefault(name, set())
        if len(s) < 400000:
            s.add(digest(obj))

    def nontrivial(self, key=None):
        """Marks the current case as non-trivial; distinct by key"""
        self.seen('distinct_nontrivial', [self.kind, self.case if key is None else key])

    def sample(self, obj, kind=None):
        kind = kind or self.kind
        if self._nsample[kind] < 2:
            self._nsample[kind] += 1
            self.samples.append({'kind': kind, 'case': obj})

    # Verdicts --------------------------------------------------------------------
    def fail(self, message, **info):
        text = message
        for key, value in info.items():
            text += '\n  %s: %s' % (key, _short(value))
        raise Violation(text)

    def check(self, cond, message, **info):
        self.counters['assertions'] += 1
        if not cond:
            self.fail(message, **info)

    def equal(self, expected, observed, message, **info):
        self.counters['assertions'] += 1
        if expected != observed:
            self.fail(message, expected=expected, observed=observed, **info)


def _short(value, limit=3000):
    text = value if isinstance(value, str) else repr(value)
    return text if len(text) <= limit else text[:limit] + '... (%d chars)' % len(text)


# Progress guard -------------------------------------------------------------------


@contextlib.contextmanager
def guard(cpu=CASE_CPU_S, wall=CASE_WALL_S):
    """Bounded progress, decided on CPU time (not on the wall clock of a loaded machine)"""
    start = time.process_time()

    def _on_cpu(signum, frame):
        raise Hang('no result after %.0f s of CPU time' % cpu)

    def _on_wall(signum, frame):
        used = time.process_time() - start
        if used < 1.0:
            raise Deadlock('no result after %.0f s, %.2f s of CPU used' % (wall, used))
        raise Slow('machine too slow: %.0f s of wall time, %.2f s of CPU' % (wall, used))

    old_cpu = signal.signal(signal.SIGPROF, _on_cpu)
    old_wall = signal.signal(signal.SIGALRM, _on_wall)
    signal.setitimer(signal.ITIMER_PROF, cpu)
    signal.setitimer(signal.ITIMER_REAL, wall)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGPROF, old_cpu)
        signal.signal(signal.SIGALRM, old_wall)


# Lines of the code under test that executed ----------------------------------------


def start_line_monitor(lines):
    mon = sys.monitoring
    tool = mon.COVERAGE_ID
    root = os.path.realpath(_boot.PKG) + os.sep
    try:
        mon.use_tool_id(tool, 'sbverif')
    except ValueError:
        return

    def _line(code, lineno):
        fn = code.co_filename
        if fn.startswith(root):
            lines.setdefault(fn[len(root):], set()).add(lineno)
        return mon.DISABLE

    mon.register_callback(tool, mon.events.LINE, _line)
    mon.set_events(tool, mon.events.LINE)


# Shard ------------------------------------------------------------------------------


def load_check(prop):
    return importlib.import_module('checks.%s' % prop.lower())


def case_rng(ctx, kind, index):
    return random.Random('%d/%s/%s/%d' % (ctx.seed, ctx.prop, kind, index))


def _is_harness_fault(exc):
    if isinstance(exc, (_boot.HarnessError, ImportError, MemoryError)):
        return True
    if isinstance(exc, AttributeError) and str(exc).startswith('module '):
        return True
    return False


def run_case(ctx, module, kind, case, index):
    """Runs one case under the guard, records a violation, returns False when the shard must stop"""
    ctx.kind, ctx.case = kind, case
    ctx.count('evaluations')
    ctx.count('kind:' + kind)
    message = None
    fatal = False
    try:
        with guard(getattr(module, 'CASE_CPU_S', CASE_CPU_S), getattr(module, 'CASE_WALL_S', CASE_WALL_S)):
            module.KINDS[kind].check(ctx, case)
    except Violation as e:
        message = str(e)
    except (Hang, Deadlock) as e:
        message = '%s: %s' % (type(e).__name__, e)
        fatal = True
    except Slow:
        raise
    except Exception as e:
        if _is_harness_fault(e):
            raise
        message = 'unexpected %s\n%s' % (type(e).__name__, traceback.format_exc(limit=-12))
    if message is not None:
        ctx.violations.append({'property': ctx.prop, 'kind': kind, 'index': index, 'seed': ctx.seed, 'tier': ctx.tier,
                               'case': case, 'message': message})
        if fatal or len(ctx.violations) >= MAX_VIOLATIONS:
            return False
    return True


def _set_up(ctx, module):
    """An error the code under test raises while the objects are built with valid data is a violation too"""
    try:
        module.setup(ctx)
        return True
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        inside = frames and os.path.realpath(frames[-1].filename).startswith(os.path.realpath(_boot.PKG) + os.sep)
        if _is_harness_fault(e) or not inside:
            raise
        ctx.violations.append({'property': ctx.prop, 'kind': 'setup', 'index': 0, 'seed': ctx.seed, 'tier': ctx.tier,
                               'case': None, 'message': 'the objects could not be built: unexpected %s\n%s' % (
                                   type(e).__name__, traceback.format_exc(limit=-12))})
        return False


def run_shard(ctx, out):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    threading.stack_size(0)
    start_line_monitor(ctx.lines)
    _boot.boot()
    module = load_check(ctx.prop)
    t0 = time.monotonic()
    cap = getattr(module, 'CAP_S', {}).get(ctx.tier, 200. if ctx.tier == 'quick' else 900.)
    scale = float(os.environ.get('SBV_SCALE', '1'))
    if hasattr(module, 'setup') and not _set_up(ctx, module):
        write_shard(ctx, out)
        return
    plan = []
    only = os.environ.get('SBV_KIND')
    for k, (name, kind) in enumerate(sorted(module.KINDS.items())):
        if only and name != only:
            continue
        n = kind.thorough if ctx.thorough else kind.quick
        n = max(1, int(n * scale))
        plan.extend(((i + 0.5) / n, name, i) for i in range(n) if i % ctx.nshards == (ctx.shard + k) % ctx.nshards)
    plan.sort()
    done = 0
    for _, name, i in plan:
        rng = case_rng(ctx, name, i)
        case = module.KINDS[name].gen(rng, ctx)
        if not run_case(ctx, module, name, case, i):
            break
        done += 1
        if time.monotonic() - t0 > cap:
            ctx.count('capped_shards')
            break
    if hasattr(module, 'finish'):
        module.finish(ctx)
    ctx.counters['planned'] += len(plan)
    write_shard(ctx, out)


def write_shard(ctx, out, error=None):
    with open(out + '.tmp', 'wb') as f:
        pickle.dump({'counters': dict(ctx.counters), 'sets': ctx.sets, 'samples': ctx.samples,
                     'violations': ctx.violations, 'lines': ctx.lines, 'error': error}, f)
    os.replace(out + '.tmp', out)


# Parent -----------------------------------------------------------------------------


def known_findings(prop):
    """Lines 'known: property=<id> key=<mechanism> <what fails>' of the committed file"""
    found = {}
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding='utf-8') as f:
            for line in f:
                if line.startswith('known: property=%s ' % prop):
                    words = line.split()
                    key = [w[4:] for w in words if w.startswith('key=')]
                    if key:
                        found[key[0]] = line.strip()
    return found


def run_parent(prop, seed, tier, nshards=None):
    t0 = time.monotonic()
    nshards = nshards or int(os.environ.get('SBV_SHARDS', '8'))
    scratch = _boot.scratch_root()
    procs, outs = [], []
    for shard in range(nshards):
        out = os.path.join(scratch, 'shard_%d.pkl' % shard)
        env = dict(os.environ, PYTHONHASHSEED=str((seed * 31 + shard * 7) % 1000), PYTHONDONTWRITEBYTECODE='1',
                   SBV_SCRATCH=scratch, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        cmd = [sys.executable, os.path.join(VERIF, 'run.py'), prop, '--seed', str(seed), '--tier', tier,
               '--shard', '%d/%d' % (shard, nshards), '--out', out]
        log = open(out + '.log', 'wb')
        procs.append(subprocess.Popen(cmd, cwd=VERIF, env=env, stdout=log, stderr=subprocess.STDOUT,
                                      start_new_session=True))
        outs.append(out)
    deadline = t0 + (780 if tier == 'quick' else 7200)
    errors, merged = [], Ctx(prop, seed, tier)
    for shard, (proc, out) in enumerate(zip(procs, outs)):
        try:
            proc.wait(timeout=max(1, deadline - time.monotonic()))
        except subprocess.TimeoutExpired:
            errors.append('shard %d: no answer before the watchdog' % shard)
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except OSError:
            pass
        proc.wait()
        if not os.path.exists(out):
            with open(out + '.log', 'rb') as f:
                tail = f.read()[-3000:].decode('utf-8', 'replace')
            errors.append('shard %d: exit %s\n%s' % (shard, proc.returncode, tail))
            continue
        with open(out, 'rb') as f:
            data = pickle.load(f)
        merged.counters.update(data['counters'])
        for key, value in data['sets'].items():
            merged.sets.setdefault(key, set()).update(value)
        merged.samples.extend(data['samples'])
        merged.violations.extend(data['violations'])
        for fn, nums in data['lines'].items():
            merged.lines.setdefault(fn, set()).update(nums)
        if data['error']:
            errors.append('shard %d: %s' % (shard, data['error']))
    return verdict(merged, errors, time.monotonic() - t0)


def verdict(ctx, errors, wall):
    module = load_check_meta(ctx.prop)
    known = known_findings(ctx.prop)
    fresh, listed = [], {}
    for v in ctx.violations:
        hit = [key for key in known if '[finding:%s]' % key in v['message']]
        if hit:
            listed.setdefault(hit[0], v)
        else:
            fresh.append(v)
    missing = []
    for name, minimum in sorted(module['REQUIRE'].items()):
        have = len(ctx.sets[name]) if name in ctx.sets else ctx.counters.get(name, 0)
        if have < minimum:
            missing.append('%s: observed %d, need %d' % (name, have, minimum))
    write_evidence(ctx, module, wall, fresh)
    for key in sorted(listed):
        print('KNOWN-FINDING: property=%s %s' % (ctx.prop, known[key].split('key=%s' % key, 1)[1].strip()))
    if fresh:
        os.makedirs(os.path.join(EVIDENCE, 'replay'), exist_ok=True)
        for n, v in enumerate(fresh[:MAX_VIOLATIONS]):
            path = os.path.join(EVIDENCE, 'replay', '%s_%d.json' % (ctx.prop, n))
            with open(path, 'w', encoding='utf-8', errors='surrogatepass') as f:
                json.dump(v, f, ensure_ascii=False, indent=1, default=str)
            print('--- %s kind=%s seed=%d index=%s' % (ctx.prop, v['kind'], v['seed'], v['index']))
            print(_short(v['message'], 6000).encode('utf-8', 'replace').decode())
            print('case: ' + _short(json.dumps(v['case'], ensure_ascii=False, default=str), 2000)
                  .encode('utf-8', 'replace').decode())
        print('VIOLATION property=%s replay=%s' % (ctx.prop, os.path.join(EVIDENCE, 'replay', '%s_0.json' % ctx.prop)))
        return 1
    if errors or missing:
        for e in errors[:3]:
            print('INCONCLUSIVE %s: %s' % (ctx.prop, e))
        for m in missing:
            print('INCONCLUSIVE %s: too little observed: %s' % (ctx.prop, m))
        return 2
    print('HELD %s tier=%s seed=%d evaluations=%d distinct=%d assertions=%d wall=%.1fs' % (
        ctx.prop, ctx.tier, ctx.seed, ctx.counters['evaluations'], len(ctx.sets.get('distinct_nontrivial', ())),
        ctx.counters['assertions'], wall))
    return 0


def load_check_meta(prop):
    """RULE, REQUIRE... without importing the code under test in the parent"""
    import ast
    path = os.path.join(VERIF, 'checks', prop.lower() + '.py')
    meta = {'RULE': '', 'REQUIRE': {}, 'ANCHORS': [], 'LEVEL': 'exploration', 'ASSUMPTIONS': []}
    with open(path, encoding='utf-8') as f:
        tree = ast.parse(f.read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in meta:
            meta[node.targets[0].id] = ast.literal_eval(node.value)
    return meta


def _shorten(obj, width):
    """Large cases are written out in part"""
    if isinstance(obj, str):
        return obj if len(obj) <= width * 20 else '%s... (%d characters)' % (obj[:width * 20], len(obj))
    if isinstance(obj, dict):
        return {k: _shorten(v, width) for k, v in list(obj.items())[:width]}
    if isinstance(obj, (list, tuple)):
        return [_shorten(v, width) for v in obj[:width]] + (['... (%d in all)' % len(obj)] if len(obj) > width else [])
    return obj


def _readable(samples):
    out = []
    for sample in samples:
        width = 100
        while len(json.dumps(sample, default=str)) > 10000 and width > 2:
            sample = _shorten(sample, width)
            width //= 2
        out.append(sample)
    return out


def write_evidence(ctx, module, wall, fresh):
    os.makedirs(EVIDENCE, exist_ok=True)
    coverage = {
        'evaluations': ctx.counters.get('evaluations', 0),
        'distinct_nontrivial': len(ctx.sets.get('distinct_nontrivial', ())),
        'rule': module['RULE'],
        'samples': _readable(ctx.samples[:8]),
        'oracle_comparisons': ctx.counters.get('assertions', 0),
        'observed': {k: v for k, v in sorted(ctx.counters.items()) if k not in ('evaluations', 'assertions', 'planned')},
        'distinct': {k: len(v) for k, v in sorted(ctx.sets.items()) if k != 'distinct_nontrivial'},
        'planned_cases': ctx.counters.get('planned', 0),
        'lines_executed': {fn: len(ctx.lines.get(fn, ())) for fn in module['ANCHORS']},
    }
    evidence = {'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': module['LEVEL'],
                'coverage': coverage,
                'assumptions': module['ASSUMPTIONS'] + [
                    'The verdict covers the executions of this run only.',
                    'The three neural models are played by oracles of the harness (weights are not in the repository).'],
                'wall_s': round(wall, 2), 'violations': len(fresh)}
    path = os.path.join(EVIDENCE, '%s.json' % ctx.prop)
    with open(path + '.tmp', 'w', encoding='utf-8', errors='replace') as f:
        json.dump(evidence, f, ensure_ascii=False, indent=1, default=str)
    os.replace(path + '.tmp', path)


def replay(path):
    with open(path, encoding='utf-8', errors='surrogatepass') as f:
        v = json.load(f)
    ctx = Ctx(v['property'], v['seed'], v['tier'])
    _boot.boot()
    module = load_check(ctx.prop)
    if (not hasattr(module, 'setup') or _set_up(ctx, module)) and v['kind'] != 'setup':
        run_case(ctx, module, v['kind'], v['case'], v['index'])
    for w in ctx.violations:
        print(w['message'])
        print('VIOLATION property=%s replay=%s' % (ctx.prop, path))
    if not ctx.violations:
        print('HELD %s on %s' % (ctx.prop, path))
    return 1 if ctx.violations else 0
