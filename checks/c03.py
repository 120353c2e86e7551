"""Failures injected at every stage and position surface, and leave the object usable."""
import collections
import contextlib
import io
import operator
import os
import random
import shutil
import threading
import time

from vlib import gen_clauses as gc, gen_corpus, lmfiles, pipe_env as pe, ref_lm, sched
from vlib.core import Kind

LEVEL = 'fault_enumeration'
RULE = ('Faults injected from outside: the sentence splitter, the three networks (at the n-th request), language model queries, tokens whose n-th string operation fails, objects that are not tokens, every step of the analysis of a sentence (28 kinds of error each, before or after the step did its work), items of the parallel map, slices of probabilities, texts and counts of the '
        'language model builder; with 28 kinds of error; one or several at once, at enumerated positions, with 1 to 16 workers, under scheduling noise. A call in which a fault fired must raise; if no fault fired it must give the full results; the next calls must be right. '
        'Non-trivial: a fault fired; distinct by stage, positions and configuration.')
REQUIRE = {'fired': 500, 'fired_split': 60, 'fired_tags': 15, 'fired_deps': 15, 'fired_trans': 15, 'fired_lm': 15, 'fired_token': 20, 'fired_step': 800, 'steps_and_errors': 135, 'fired_item': 200, 'slow_failures': 10, 'fired_smoother': 15, 'fired_slice': 60, 'fired_build': 10, 'several': 60, 'recovered': 400,
           'distinct_nontrivial': 300}
ANCHORS = ['utils/multithreading.py', 'pipeline/pipeline.py', 'pipeline/logic_pipeline.py', 'syntax/parser.py', 'langmodel/smoother.py', 'langmodel/language_model_builder.py']


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


class Odd(Exception):
    """An error that cannot be made again from its message"""

    def __init__(self, message, *, position=0):
        super().__init__()
        self.position = position
        self.message = message
        if message == str(self):
            raise AssertionError('made from its message')


_ERRORS = {'Boom': Boom, 'Odd': Odd, 'ValueError': ValueError, 'RuntimeError': RuntimeError, 'OSError': OSError, 'AssertionError': AssertionError, 'KeyError': KeyError, 'IndexError': IndexError, 'TypeError': TypeError, 'BaseBoom': BaseBoom,
           'FloatingPointError': FloatingPointError, 'ZeroDivisionError': ZeroDivisionError, 'ArithmeticError': ArithmeticError, 'OverflowError': OverflowError, 'LookupError': LookupError, 'UnicodeError': UnicodeError, 'MemoryError': MemoryError,
           'AttributeError': AttributeError, 'NameError': NameError, 'RecursionError': RecursionError, 'NotImplementedError': NotImplementedError, 'TimeoutError': TimeoutError, 'EOFError': EOFError, 'Warning': Warning, 'Exception': Exception,
           'BufferError': BufferError, 'FileNotFoundError': FileNotFoundError, 'PermissionError': PermissionError}
# Events that are normal for the code that looks something up (a character, an entry, the form of a number) and that it may handle
_NORMAL = ('KeyError', 'IndexError', 'LookupError', 'ValueError', 'UnicodeError', 'AttributeError')
setup = pe.setup


def _unwrap(error):
    seen = []
    while error is not None and error not in seen:
        seen.append(error)
        error = error.__cause__ or error.__context__
    return seen


def _raises(ctx, call, fired, what, **info):
    """Outcome of a call that must raise if a fault fired"""
    raised, result = None, None
    try:
        result = call()
    except BaseException as e:
        if type(e).__name__ in ('Hang', 'Deadlock', 'Slow', 'Violation'):
            raise
        raised = e
    if fired:
        ctx.check(raised is not None, 'a failure was swallowed (%s)' % what, result=result, faults=len(fired), **info)
        ctx.check(any(e in fired for e in _unwrap(raised)) or type(raised) in {type(e) for e in fired}, 'another error surfaced (%s)' % what, raised=repr(raised), injected=[repr(e) for e in fired], **info)
        ctx.count('fired')
        return True, None
    if raised is not None:
        raise raised
    return False, result


# Whole pipeline -----------------------------------------------------------------------------------------------------


class Evil(str):
    """A token whose n-th string operation fails"""
    budget = None
    fired = ()
    error = Boom

    def _tick(self):
        with _LOCK:
            self.budget[0] -= 1
            if self.budget[0] == 0:
                error = self.error('token %s' % str.__str__(self))
                self.fired.append(error)
            else:
                return
        raise error


_LOCK = threading.Lock()


def _op(name):
    original = getattr(str, name)

    def method(self, *args):
        self._tick()
        return original(self, *args)
    method.__name__ = name
    return method


for _name in ('__len__', '__getitem__', '__iter__', '__contains__', '__add__', 'lower', 'upper', 'isupper', 'islower', 'istitle', 'isalpha', 'isdigit', 'startswith', 'endswith', 'replace', 'split', 'strip', 'title', 'capitalize'):
    setattr(Evil, _name, _op(_name))


class Junk(object):
    """Not a token at all"""

    def __init__(self, fired, error):
        self.fired, self.error = fired, error

    def _fail(self, *args):
        error = self.error('not a token')
        self.fired.append(error)
        raise error

    __len__ = __getitem__ = __iter__ = __add__ = __radd__ = __contains__ = __str__ = _fail

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        self._fail()


def _gen_pipe(rng, ctx):
    n = rng.choice([1, 2, 3, 4, 6, 9])
    docs = [pe.document(rng, .03, (1, 1, 2, 3)) for _ in range(n)]
    docs[rng.randrange(n)].append(pe.svo(rng))
    stage = rng.choice(['split', 'split', 'tags', 'deps', 'trans', 'lm', 'token', 'token', 'junk'])
    return {'docs': docs, 'stage': stage, 'cores': rng.choice([1, 2, 3, 4, 5, 8, 16]), 'batch': rng.choice([1, 2, 3, 5, 128]), 'gpu': rng.random() < .5,
            'at': sorted(rng.sample(range(n), rng.choice([1, 1, 1, min(2, n), min(3, n)]))), 'after': rng.choice([0, 0, 1, 2, 3, 5, 8, 13]), 'error': rng.choice(sorted(_ERRORS)),
            'sub': rng.randint(0, 10 ** 6), 'noise': rng.choice(['free', 'free', 'jitter', 'sched'])}


@contextlib.contextmanager
def _lm_fault(act):
    """Queries of the language model fail"""
    from scrappybara.langmodel.language_model import LanguageModel as LM
    names = ('has_ngram', 'best_ngram', 'best_token', '__contains__')
    saved = {m: LM.__dict__[m] for m in names if m in LM.__dict__}

    def wrap(original):
        def method(self, *args, **kw):
            act()
            return original(self, *args, **kw)
        return method

    for m, original in saved.items():
        setattr(LM, m, wrap(original))
    try:
        yield
    finally:
        for m, original in saved.items():
            setattr(LM, m, original)


def _check_pipe(ctx, case):
    env = ctx.env
    pe.forget(env)
    texts = pe.prepare(env, case['docs'])
    split = [list(map(list, env.texts[t])) for t in texts]
    want = pe.expected(env, split)
    fired = []
    stage = case['stage']
    left = [case['after']]

    def act():
        with _LOCK:
            left[0] -= 1
            go = left[0] < 0 and (len(fired) == 0 or len(fired) < len(case['at']))
            if go:
                error = _ERRORS[case['error']]('injected')
                fired.append(error)
        if go:
            raise error

    pipe = pe.pipeline(env, case['cores'], case['batch'], case['gpu'])
    s = pe.schedule(case['noise'], case['sub'])
    bad = {texts[k] for k in case['at']}

    def hook(text):
        if s:
            s.point(-1)
        if stage == 'split' and text in bad:
            make = _ERRORS[case['error']]
            error = make() if case['sub'] % 4 == 0 and make is not Odd else make(text)
            fired.append(error)
            raise error

    env.hook = hook
    if stage in ('tags', 'deps', 'trans'):
        env.oracle.fault = lambda st, keys: act() if st == stage else None
    elif stage in ('token', 'junk'):
        kind = [Boom, TypeError][case['sub'] % 2] if case['error'] in _NORMAL else _ERRORS[case['error']]
        rng = random.Random(case['sub'])
        for k in case['at']:
            sents = env.texts[texts[k]]
            target = rng.choice([x for x in sents if x] or [None])
            if target is None:
                continue
            i = rng.randrange(len(target))
            if stage == 'junk':
                target[i] = Junk(fired, kind)
            else:
                target[i] = Evil(target[i])
                target[i].budget, target[i].fired, target[i].error = [1 + case['after'] * rng.choice([1, 2, 3])], fired, kind
    info = {k: case[k] for k in ('stage', 'cores', 'batch', 'gpu', 'at', 'after', 'error')}
    with contextlib.ExitStack() as stack:
        if stage == 'lm':
            stack.enter_context(_lm_fault(act))
        if s:
            stack.enter_context(s)
        hit, got = _raises(ctx, lambda: pe.outcome(pipe(list(texts))), fired, stage, config=info)
    env.hook = env.oracle.fault = None
    if hit:
        ctx.count('fired_%s' % ('token' if stage == 'junk' else stage))
        ctx.count('several', len(fired) > 1)
        ctx.nontrivial(info)
        ctx.sample(info)
    else:
        if stage not in ('junk',):
            ctx.equal(want, got, 'results of a call without any fault', config=info)
        ctx.count('not_fired')
    # Usable again
    for t, sents in zip(texts, split):
        env.texts[t] = [list(x) for x in sents]
    ctx.equal(want, pe.outcome(pipe(list(texts))), 'results of the call after the failed one', config=info)
    ctx.count('recovered', hit)


# Every step, every kind of error -------------------------------------------------------------------------------------

_STEPS = {'nodes': ('syntax.nodifier', 'Nodifier', '__call__'), 'standard': ('normalization.standardizer', 'Standardizer', '__call__'), 'lemma': ('normalization.lemmatizer', 'Lemmatizer', '__call__'),
          'fix': ('syntax.fixer', 'Fixer', '__call__'), 'chunk': ('syntax.chunker', 'Chunker', '__call__'), 'canonical': ('normalization.canonicalizer', 'Canonicalizer', '__call__'),
          'arguments': ('syntax.arg_finder', 'ArgFinder', '__call__'), 'tuples': ('semantics.semantic_tuple_extractor', 'SemanticTupleExtractor', '__call__'),
          'has_ngram': ('langmodel.language_model', 'LanguageModel', 'has_ngram'), 'best_ngram': ('langmodel.language_model', 'LanguageModel', 'best_ngram'), 'best_token': ('langmodel.language_model', 'LanguageModel', 'best_token'),
          'participle': ('normalization.inflector', 'Inflector', 'past_participle'), 'tree': ('utils.tree', 'Tree', '__init__'), 'arc': ('utils.tree', 'Tree', 'register_child')}


def _passive(rng):
    """An object without subject: the past participle is asked for"""
    verb = rng.choice([v for v in gc.VERBS if v[0] in ('stop', 'hop', 'play', 'travel', 'fix', 'show')])
    return [[verb[2], 'VERB', 'ROOT', -1], [pe.name(rng), 'PROPN', 'OBJ', 0], ['.', 'PUNCT', 'NODEP', -1]]


def _gen_steps(rng, ctx):
    docs = [[rng.choice([pe.svo, pe.clause, _passive])(rng) for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([1, 2, 4]))]
    docs[-1].append(_passive(rng))
    return {'docs': docs, 'step': rng.choice(sorted(_STEPS)), 'at': [rng.choice([0, 0, 1, 2, 3, 5]) for _ in _ERRORS], 'late': rng.random() < .5, 'cores': rng.choice([1, 2, 3, 8]), 'batch': rng.choice([1, 3, 128])}


def _check_steps(ctx, case):
    import importlib
    env = ctx.env
    pe.forget(env)
    texts = pe.prepare(env, case['docs'])
    want = pe.expected(env, [[list(s) for s in env.texts[t]] for t in texts])
    module, name, method = _STEPS[case['step']]
    try:
        cls = getattr(importlib.import_module('scrappybara.' + module), name)
        original = cls.__dict__[method]
    except (ImportError, AttributeError, KeyError):
        ctx.count('steps_absent')
        return
    pipe = pe.pipeline(env, case['cores'], case['batch'])
    for error, after in zip(sorted(_ERRORS), case['at']):
        fired, left = [], [after]

        def method_with_fault(self, *args, **kw):
            result = original(self, *args, **kw) if case['late'] else None
            with _LOCK:
                left[0] -= 1
                if left[0] == -1:
                    fired.append(_ERRORS[error]('injected'))
                    raise fired[0]
            return result if case['late'] else original(self, *args, **kw)

        info = {'step': case['step'], 'error': error, 'after': after, 'late': case['late'], 'cores': case['cores']}
        setattr(cls, method, method_with_fault)
        try:
            hit, got = _raises(ctx, lambda: pe.outcome(pipe(list(texts))), fired, case['step'], config=info)
        finally:
            setattr(cls, method, original)
        if hit:
            ctx.count('fired_step')
            ctx.seen('steps_and_errors', [case['step'], error])
            ctx.nontrivial(info)
        else:
            ctx.equal(want, got, 'results of a call without any fault', config=info)
        ctx.equal(want, pe.outcome(pipe(list(texts))), 'results of the call after the failed one', config=info)
        ctx.count('recovered', hit)


# Parallel map -------------------------------------------------------------------------------------------------------


def _gen_map(rng, ctx):
    n = rng.choice([0, 1, 2, 3, 5, 8, 13, 30])
    return {'n': n, 'long': rng.random() < .1, 'threads': rng.choice([1, 2, 3, 4, 5, 8, 16, 40]), 'at': sorted(rng.sample(range(n), rng.choice([0, 1, 1, 1, 2, 3, n]) % (n + 1))) if n else [],
            'error': rng.choice(sorted(_ERRORS)), 'bare': rng.random() < .3, 'delays': [rng.choice([0, 0, 0, .0005, .002]) for _ in range(n)], 'container': rng.choice(['list', 'tuple'])}


def _check_map(ctx, case):
    from scrappybara.utils.multithreading import run_multithreads
    fired = []
    calls = collections.Counter()

    slow = sched.Dilated() if case['long'] else None

    def process(item, faulty=True):
        calls[item] += 1
        if slow and item in case['at'][:1]:
            slow.point()
        elif case['delays'][item]:
            time.sleep(case['delays'][item])
        if faulty and item in case['at']:
            make = _ERRORS[case['error']]
            error = make() if case.get('bare') and make is not Odd else make(item)
            fired.append(error)
            raise error
        return ('done', item)

    items = list(range(case['n'])) if case['container'] == 'list' else tuple(range(case['n']))
    info = {k: case[k] for k in ('n', 'threads', 'at', 'error')}
    with slow or contextlib.nullcontext():
        hit, got = _raises(ctx, lambda: run_multithreads(items, process, case['threads']), fired, 'parallel map', config=info)
    ctx.count('slow_failures', bool(slow and hit))
    want = [('done', i) for i in range(case['n'])]
    if not hit:
        ctx.check(not case['at'], 'an item was never processed and no error was raised', config=info, result=got)
        ctx.equal(want, list(got), 'results of the parallel map', config=info)
        ctx.check(all(calls[i] == 1 for i in range(case['n'])), 'items not processed exactly once', config=info, calls=dict(calls))
    else:
        ctx.count('fired_item')
        ctx.count('several', len(fired) > 1)
        ctx.nontrivial(info)
    ctx.equal(want, list(run_multithreads(items, lambda i: process(i, False), case['threads'])), 'results of the next parallel map', config=info)
    ctx.count('recovered', hit)


# Language model construction ----------------------------------------------------------------------------------------


class Count(object):
    """A count whose n-th operation fails"""

    def __init__(self, value, budget, fired, error=Boom):
        self.value, self.budget, self.fired, self.error = value, budget, fired, error

    def _get(self):
        self.budget[0] -= 1
        if self.budget[0] == 0:
            error = self.error('count')
            self.fired.append(error)
            raise error
        return self.value


def _spied(name):
    op = getattr(operator, name.replace('__r', '__')) if name.startswith('__r') else getattr(operator, name)

    def run(self, other):
        mine, its = self._get(), other.value if isinstance(other, Count) else other
        return op(its, mine) if name.startswith('__r') else op(mine, its)
    return run


for _name in ('__add__', '__sub__', '__mul__', '__truediv__', '__floordiv__', '__mod__', '__pow__', '__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__',
              '__radd__', '__rsub__', '__rmul__', '__rtruediv__', '__rfloordiv__', '__rmod__'):
    setattr(Count, _name, _spied(_name))
for _name, _conv in (('__float__', float), ('__int__', int), ('__index__', int), ('__hash__', hash), ('__bool__', bool), ('__neg__', operator.neg), ('__abs__', abs), ('__str__', str), ('__repr__', repr)):
    setattr(Count, _name, (lambda conv: lambda self: conv(self._get()))(_conv))


def _gen_smooth(rng, ctx):
    order = rng.choice([1, 2, 3])
    method = 'MLE' if order == 1 or rng.random() < .6 else 'MKN'
    return {'sents': [[t for t in s if t] for s in gen_corpus.rich(rng, order, .02)], 'order': order, 'method': method, 'nproc': rng.choice([1, 2, 3, 4, 8]), 'budget': rng.choice([1, 2, 3, 4, 5, 6, 8]), 'at': rng.randint(0, 10 ** 6), 'error': rng.choice(sorted(_ERRORS))}


def _check_smooth(ctx, case):
    from scrappybara.langmodel.mkn_smoother import MKNSmoother
    from scrappybara.langmodel.mle_smoother import MLESmoother
    from scrappybara.langmodel.ngram_store import NgramStore
    from scrappybara.langmodel.ngrams_extraction import extract_ngrams
    smoother = MLESmoother if case['method'] == 'MLE' else MKNSmoother

    def store():
        out = NgramStore()
        for n in range(1, case['order'] + 1):
            for ngram in extract_ngrams(case['sents'], n):
                out.make_ngram(ngram)
        return out

    def probas(st):
        done = smoother(st.ngrams, case['order'], case['nproc'])()
        return {n: sorted((g.text, float(g.proba)) for g in done.ngrams(n)) for n in range(1, case['order'] + 1)}

    if case['method'] == 'MKN':
        try:
            ref_lm.mkn(ref_lm.counts([case['sents']], case['order']), case['order'])
        except ref_lm.PoorData:
            return
    base = probas(store())
    st = store()
    ngrams = list(st.ngrams)
    victim = ngrams[case['at'] % len(ngrams)]
    fired = []
    victim.count = Count(victim.count, [case['budget']], fired, Boom if case['error'] in _NORMAL + ('TypeError',) else _ERRORS[case['error']])
    info = {k: case[k] for k in ('order', 'method', 'nproc', 'budget', 'error')}
    try:
        hit, _ = _raises(ctx, lambda: probas(st), fired, 'probabilities', config=info, ngram=victim.text)
    except TypeError:
        if fired:
            raise
        ctx.count('spy_refused')  # the instrumented count is not a number that this code accepts: nothing was observed
        return
    if hit:
        ctx.count('fired_smoother')
        ctx.nontrivial([info, case['at'] % len(ngrams)])
    ctx.equal(base, probas(store()), 'probabilities computed after a failure', config=info)
    ctx.count('recovered', hit)


def _gen_build(rng, ctx):
    order = rng.choice([1, 2])
    n = rng.randint(1, 7)
    texts = [gen_corpus.to_text([[t for t in s if t] for s in gen_corpus.rich(rng, order, .03)]) for _ in range(n)]
    return {'texts': texts, 'order': order, 'nproc': rng.choice([1, 2, 3, 4]), 'at': sorted(rng.sample(range(n), rng.choice([1, min(2, n)]))), 'what': rng.choice(['none', 'int', 'list', 'object'])}


@contextlib.contextmanager
def _model_files_kept():
    root = lmfiles.langmodel_dir()
    saved = root + '.saved'
    shutil.copytree(root, saved)
    try:
        yield
    finally:
        shutil.rmtree(root)
        os.rename(saved, root)


def _check_build(ctx, case):
    with _model_files_kept():
        _build(ctx, case)


def _build(ctx, case):
    """A text that cannot be split into sentences"""
    from scrappybara.langmodel.language_model_builder import LanguageModelBuilder
    bad = {'none': None, 'int': 12, 'list': ['a', 'b'], 'object': object()}[case['what']]
    texts = [bad if k in case['at'] else t for k, t in enumerate(case['texts'])]
    builder = LanguageModelBuilder(case['order'], 'maximum_likelihood_estimation', case['nproc'])
    raised = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            builder(iter(texts))
    except Exception as e:
        raised = e
    if case['what'] == 'none':
        # The tokenizer takes None for an empty text: either answer will do, but not a crash of the next build
        ctx.count('not_fired')
    else:
        ctx.check(raised is not None, 'the build ended normally although a text could not be processed', at=case['at'], what=case['what'], nproc=case['nproc'])
        ctx.count('fired')
        ctx.count('fired_build')
        ctx.nontrivial([case['at'], case['what'], case['nproc'], len(texts)])
    with contextlib.redirect_stdout(io.StringIO()):
        builder(iter(case['texts']))
    with open(os.path.join(lmfiles.langmodel_dir(), '1_grams.txt'), encoding='utf-8') as f:
        got = {line.split('\t')[0]: int(line.split('\t')[1]) for line in f}
    from scrappybara.preprocessing.sentencizer import Sentencizer
    sentencize = Sentencizer()
    ctx.equal(dict(ref_lm.counts([sentencize(t) for t in case['texts']], 1)[1]), got, 'counts of the build after the failed one')
    ctx.count('recovered', 1)


def _gen_slices(rng, ctx):
    n = rng.choice([1, 2, 3, 4, 7])
    return {'sizes': [rng.choice([0, 1, 2, 5]) for _ in range(n)], 'nproc': rng.choice([1, 2, 3, 4, 8]), 'at': sorted(rng.sample(range(n), rng.choice([0, 1, 1, min(2, n)]))), 'error': rng.choice(sorted(_ERRORS))}


def _check_slices(ctx, case):
    """Slices of probabilities, some of which cannot be computed"""
    import numpy as np
    from scrappybara.langmodel.smoother import DataSlice, calc_ngrams_multithread
    fired = []

    def slices(faulty):
        out = []
        for k, n in enumerate(case['sizes']):
            item = DataSlice()
            item.k, item.n, item.faulty = k, n, faulty and k in case['at']
            out.append(item)
        return out

    def process(item):
        if item.faulty:
            error = _ERRORS[case['error']]('slice')
            fired.append(error)
            raise error
        item.np_probas = np.arange(item.n) + 10. * item.k
        return item

    info = {k: case[k] for k in ('sizes', 'nproc', 'at', 'error')}
    want = [10. * k + i for k, n in enumerate(case['sizes']) for i in range(n)]
    hit, got = _raises(ctx, lambda: calc_ngrams_multithread(slices(True), process, case['nproc']), fired, 'slices of probabilities', config=info)
    if hit:
        ctx.count('fired_slice')
        ctx.count('several', len(fired) > 1)
        ctx.nontrivial(info)
    else:
        ctx.equal(want, [float(x) for x in got], 'probabilities of the slices', config=info)
    ctx.equal(want, [float(x) for x in calc_ngrams_multithread(slices(False), process, case['nproc'])], 'probabilities of the slices after a failure', config=info)
    ctx.count('recovered', hit)


KINDS = {'steps': Kind(_gen_steps, _check_steps, 160, 2000), 'pipeline': Kind(_gen_pipe, _check_pipe, 800, 12000), 'map': Kind(_gen_map, _check_map, 900, 20000), 'smoothing': Kind(_gen_smooth, _check_smooth, 260, 4000),
         'slices': Kind(_gen_slices, _check_slices, 400, 6000),
         'build': Kind(_gen_build, _check_build, 40, 400)}
