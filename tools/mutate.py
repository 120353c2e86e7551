#!/usr/bin/env python3
"""Mutation testing of the checks: small changes of the package, one at a time, in scratch copies.

mutate.py OUT.jsonl [--files substring ...] [--sample N] [--workers 8] [--again]
A mutant is killed when one shard of a check that anchors its file reports a violation; what survives one shard is tried with
three more shards of these checks, then with one shard of some broad checks. Survivors have to be judged by hand (many are equivalent).
"""
import argparse
import ast
import concurrent.futures
import glob
import json
import os
import pickle
import random
import shutil
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SCRATCH = '/tmp/sbmut'

CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BROAD = ('C01', 'C05', 'C09', 'C32', 'C30')
ENUMS = {'Dep', 'Tag', 'Suffix', 'Trans', 'ArgCode'}


def mutants_of(path):
    """List of (start, end, new text, description) in characters of the source"""
    with open(path, encoding='utf-8') as f:
        src = f.read()
    tree = ast.parse(src)
    lines = src.splitlines(True)
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln))

    def pos(line, col):
        return offs[line - 1] + len(lines[line - 1].encode()[:col].decode())

    def span(node):
        return pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)

    out = []

    def text(node):
        a, b = span(node)
        return src[a:b]

    def put(node, new, what):
        a, b = span(node)
        if src[a:b] != new:
            out.append((a, b, new, 'L%d %s: %s -> %s' % (node.lineno, what, src[a:b][:100], new[:100])))

    docs = set()
    names = {}
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)) and node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
            docs.add(node.body[0].value)
        if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.value.id in ENUMS:
            names.setdefault(node.value.id, set()).add(node.attr)
    for node in ast.walk(tree):
        if isinstance(node, ast.Compare):
            for i, op in enumerate(node.ops):
                left = node.left if i == 0 else node.comparators[i - 1]
                a, b = span(left)[1], span(node.comparators[i])[0]
                new = src[a:b]
                old = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in', ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not'}[type(op)]
                out.append((a, b, new.replace(old, CMP[type(op)], 1), 'L%d compare %s' % (node.lineno, text(node)[:100])))
        elif isinstance(node, ast.BoolOp):
            for i, v in enumerate(node.values):
                keep = [text(x) for j, x in enumerate(node.values) if j != i]
                put(node, '(' + (' and ' if isinstance(node.op, ast.And) else ' or ').join('(%s)' % k for k in keep) + ')', 'drop operand %d' % i)
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            put(node, '(%s)' % text(node.operand), 'drop not')
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub) and isinstance(node.operand, ast.Constant):
            put(node, str(-node.operand.value - 1), 'constant')
        elif isinstance(node, (ast.If, ast.While, ast.IfExp)):
            put(node.test, 'True' if isinstance(node, (ast.If, ast.IfExp)) else text(node.test), 'condition')
            put(node.test, 'False', 'condition')
        elif isinstance(node, ast.comprehension):
            for t in node.ifs:
                put(t, 'True', 'filter')
        elif isinstance(node, (ast.Set, ast.List, ast.Tuple)) and len(node.elts) > 1 and isinstance(getattr(node, 'ctx', ast.Load()), ast.Load):
            if len(node.elts) <= 12 or isinstance(node, ast.Set):
                for i, e in enumerate(node.elts):
                    keep = [text(x) for j, x in enumerate(node.elts) if j != i]
                    o, c = {ast.Set: '{}', ast.List: '[]', ast.Tuple: '()'}[type(node)]
                    if isinstance(node, ast.Tuple):
                        continue
                    put(node, o + ', '.join(keep) + c, 'drop element %s' % text(e)[:40])
        elif isinstance(node, ast.Dict) and len(node.keys) > 1:
            for i in range(len(node.keys)):
                keep = ['%s: %s' % (text(k), text(v)) for j, (k, v) in enumerate(zip(node.keys, node.values)) if j != i]
                put(node, '{' + ', '.join(keep) + '}', 'drop key %s' % text(node.keys[i])[:40])
        elif isinstance(node, ast.Constant) and node not in docs:
            if isinstance(node.value, bool):
                put(node, str(not node.value), 'constant')
            elif isinstance(node.value, int):
                put(node, str(node.value + 1), 'constant')
                if node.value:
                    put(node, str(node.value - 1), 'constant')
            elif isinstance(node.value, float):
                put(node, str(node.value + 1), 'constant')
            elif isinstance(node.value, str) and src[span(node)[0]] in 'r\'"' and len(node.value) > 0:
                s = node.value
                cand = []
                if src[span(node)[0]] == 'r':
                    for k, ch in enumerate(s):
                        if ch in '+*?$^' and s[k - 1:k] != '\\':
                            cand.append(s[:k] + s[k + 1:])
                        if ch == '|' and s[k - 1:k] != '\\':
                            cand.append(s[:k] + s[k + 1:])
                    depth = s.find('[')
                    while depth >= 0:
                        end = s.find(']', depth + 2)
                        for k in range(depth + 1, end):
                            if s[k] not in '\\^-' and s[k - 1] not in '\\-' and s[k + 1] != '-':
                                cand.append(s[:k] + s[k + 1:])
                        depth = s.find('[', end)
                    import re
                    ok = []
                    for c in cand:
                        try:
                            re.compile(c)
                            ok.append(c)
                        except Exception:
                            pass
                    rng = random.Random(s)
                    cand = rng.sample(ok, min(12, len(ok)))
                    for c in cand:
                        q = '"' if '"' not in c else "'" if "'" not in c else '"""'
                        put(node, 'r' + q + c + q, 'regex')
                else:
                    put(node, repr(s[:-1] if len(s) > 1 else s + 'x'), 'string')
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ('any', 'all', 'max', 'min'):
            put(node.func, {'any': 'all', 'all': 'any', 'max': 'min', 'min': 'max'}[node.func.id], 'call')
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ('sorted', 'set', 'list', 'reversed') and len(node.args) == 1:
            put(node, text(node.args[0]), 'drop call')
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ('lower', 'strip', 'upper', 'rstrip', 'lstrip') and not node.args:
            put(node, text(node.func.value), 'drop call')
        elif isinstance(node, ast.BinOp):
            swap = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.BitOr: '&', ast.BitAnd: '|'}.get(type(node.op))
            if swap and not (isinstance(node.op, ast.Add) and (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str) or isinstance(node.right, ast.Constant) and isinstance(node.right.value, str))):
                a, b = span(node.left)[1], span(node.right)[0]
                old = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.BitOr: '|', ast.BitAnd: '&'}[type(node.op)]
                out.append((a, b, src[a:b].replace(old, swap, 1), 'L%d operator %s' % (node.lineno, text(node)[:100])))
            if isinstance(node.op, (ast.BitOr, ast.Sub, ast.BitAnd)):
                put(node, text(node.left), 'left only')
        elif isinstance(node, ast.Slice):
            if node.lower is not None:
                put(node.lower, '', 'slice')
            if node.upper is not None:
                put(node.upper, '', 'slice')
        elif isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.value.id in ENUMS:
            others = sorted(names[node.value.id] - {node.attr})
            if others:
                rng = random.Random(node.lineno * 1000 + node.col_offset)
                put(node, '%s.%s' % (node.value.id, rng.choice(others)), 'enum')
        elif isinstance(node, ast.Return) and node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
            put(node.value, 'None', 'return')
        elif isinstance(node, ast.Expr) and not isinstance(node.value, ast.Constant):
            put(node, 'pass', 'drop statement')
        elif isinstance(node, ast.AugAssign):
            put(node, 'pass', 'drop statement')
        elif isinstance(node, ast.Continue):
            put(node, 'break', 'break')
        elif isinstance(node, ast.Break):
            put(node, 'continue' if False else 'pass', 'no break')
        elif isinstance(node, ast.Raise):
            put(node, 'pass', 'drop raise')
    good, seen = [], set()
    for a, b, new, what in out:
        mutated = src[:a] + new + src[b:]
        if mutated in seen or mutated == src:
            continue
        seen.add(mutated)
        try:
            if ast.dump(ast.parse(mutated)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        good.append((what, mutated))
    return good


def anchors():
    table = {}
    for path in sorted(glob.glob(VERIF + '/checks/c[0-9]*.py')):
        pid = os.path.basename(path)[:-3].upper()
        for node in ast.parse(open(path).read()).body:
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id == 'ANCHORS':
                for fn in ast.literal_eval(node.value):
                    table.setdefault(fn, []).append(pid)
    return table


_local = threading.local()
_slots = iter(range(1000))
_lock = threading.Lock()


def slot():
    if not hasattr(_local, 'root'):
        with _lock:
            n = next(_slots)
        root = '%s/w%d' % (SCRATCH, n)
        shutil.rmtree(root, ignore_errors=True)
        shutil.copytree(REPO, root + '/repo', ignore=shutil.ignore_patterns('.git', '__pycache__'))
        shutil.copytree(VERIF, root + '/verif', ignore=shutil.ignore_patterns('.git', '__pycache__', 'seeded', 'evidence'))
        _local.root = root
    return _local.root


def shard(root, pid, n, total=8):
    scratch = root + '/scratch'
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    out = scratch + '/out.pkl'
    env = dict(os.environ, VERIF_REPO=root + '/repo', SBV_SCRATCH=scratch, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    proc = subprocess.Popen(['/opt/venv/bin/python', root + '/verif/run.py', pid, '--seed', '1', '--tier', 'quick', '--shard', '%d/%d' % (n, total), '--out', out],
                            cwd=root + '/verif', env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    try:
        proc.wait(timeout=240)
    except subprocess.TimeoutExpired:
        pass
    try:
        os.killpg(proc.pid, 9)
    except OSError:
        pass
    if proc.wait() == -9 and not os.path.exists(out):
        return 'timeout'
    if not os.path.exists(out):
        return 'crash'
    data = pickle.load(open(out, 'rb'))
    if data['violations']:
        return 'violation'
    if data['error']:
        return 'error'
    return None


def judge(job):
    fn, what, mutated, first, others = job
    root = slot()
    target = '%s/repo/scrappybara/%s' % (root, fn)
    with open(target, encoding='utf-8') as f:
        orig = f.read()
    try:
        with open(target, 'w', encoding='utf-8') as f:
            f.write(mutated)
        for plan in ([(p, 0) for p in first], [(p, n) for n in range(1, 4) for p in first], [(p, 0) for p in others if p in BROAD]):
            for pid, n in plan:
                got = shard(root, pid, n)
                if got:
                    return {'file': fn, 'what': what, 'by': pid, 'how': got, 'shard': n}
    finally:
        with open(target, 'w', encoding='utf-8') as f:
            f.write(orig)
    return {'file': fn, 'what': what, 'by': None}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--files', nargs='*', default=[])
    ap.add_argument('--sample', type=int, default=0)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--count', action='store_true')
    ap.add_argument('--again', help='results of an earlier run: only its survivors')
    args = ap.parse_args()
    table = anchors()
    every = sorted({p for ps in table.values() for p in ps})
    jobs = []
    for path in sorted(glob.glob(REPO + '/scrappybara/**/*.py', recursive=True)):
        fn = os.path.relpath(path, REPO + '/scrappybara')
        if args.files and not any(f in fn for f in args.files):
            continue
        first = table.get(fn, []) or ['C32', 'C30', 'C21', 'C24', 'C33', 'C17']
        for what, mutated in mutants_of(path):
            jobs.append((fn, what, mutated, first, [p for p in every if p not in first]))
    if args.again:
        left = {(r['file'], r['what']) for r in map(json.loads, open(args.again)) if not r['by']}
        jobs = [j for j in jobs if j[:2] in left]
    if args.sample and len(jobs) > args.sample:
        jobs = random.Random(1).sample(jobs, args.sample)
    if args.count:
        c = {}
        for j in jobs:
            c[j[0]] = c.get(j[0], 0) + 1
        for k, v in c.items():
            print(v, k, table.get(k))
        print(len(jobs))
        return
    random.Random(2).shuffle(jobs)
    done = set()
    if os.path.exists(args.out):
        done = {(r['file'], r['what']) for r in map(json.loads, open(args.out))}
    jobs = [j for j in jobs if j[:2] not in done]
    with concurrent.futures.ThreadPoolExecutor(args.workers) as pool, open(args.out, 'a') as f:
        for fut in concurrent.futures.as_completed([pool.submit(judge, j) for j in jobs]):
            row = fut.result()
            f.write(json.dumps(row) + '\n')
            f.flush()
    shutil.rmtree(SCRATCH, ignore_errors=True)


if __name__ == '__main__':
    main()
