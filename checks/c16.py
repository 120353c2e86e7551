"""Failed builds: the error surfaces and the existing model files keep their bytes."""
import contextlib
import hashlib
import io
import os

from vlib import gen_corpus as gc, lmfiles, ref_lm
from vlib.core import Kind

RULE = ('An existing model (files of several orders) is in the scratch model directory; a build is made to fail by the text source raising after any number of texts, '
        'or by data too poor; the directory is compared byte for byte before and after. Refused constructions likewise. '
        'Non-trivial: every failure; distinct by failure point and corpus.')
REQUIRE = {'failed_source': 60, 'failed_poor': 20, 'rejected': 50, 'distinct_nontrivial': 80, 'failure_points': 8, 'missing_counts': 6}
ANCHORS = ['langmodel/language_model_builder.py', 'langmodel/mkn_smoother.py', 'exceptions.py']


class SourceError(Exception):
    pass


class SourceBaseError(BaseException):
    pass


_ERRORS = {'SourceError': SourceError, 'OSError': OSError, 'ValueError': ValueError, 'KeyError': KeyError, 'UnicodeDecodeError': lambda m: UnicodeDecodeError('utf-8', b'x', 0, 1, m),
           'RuntimeError': RuntimeError, 'IndexError': IndexError, 'EOFError': EOFError, 'TypeError': TypeError, 'BaseException': SourceBaseError,
           'TimeoutError': TimeoutError, 'ConnectionError': ConnectionError, 'ConnectionResetError': ConnectionResetError, 'FileNotFoundError': FileNotFoundError,
           'PermissionError': PermissionError, 'AttributeError': AttributeError, 'AssertionError': AssertionError, 'ZeroDivisionError': ZeroDivisionError,
           'MemoryError': MemoryError, 'BufferError': BufferError, 'NotImplementedError': NotImplementedError, 'StopAsyncIteration': StopAsyncIteration,
           'KeyboardInterrupt': KeyboardInterrupt, 'SystemExit': SystemExit}


def _snapshot():
    root = lmfiles.langmodel_dir()
    snap = {}
    for name in sorted(os.listdir(root)):
        with open(os.path.join(root, name), 'rb') as f:
            snap[name] = hashlib.sha256(f.read()).hexdigest()
    return snap


def _existing(rng_key, orders):
    import random
    rng = random.Random(rng_key)
    root = lmfiles.langmodel_dir()
    for name in os.listdir(root):
        os.remove(os.path.join(root, name))
    for n in range(1, orders + 1):
        rows = [('old%d %d' % (n, i), i + 1, rng.random() + .001) for i in range(rng.randint(1, 30))]
        lmfiles.write(n, rows)


def _gen_source(rng, ctx):
    order = rng.choice([1, 2, 3])
    sents = [[t for t in s if t] for s in gc.rich(rng, order, .05)]
    n = rng.randint(0, 9)
    texts = [gc.to_text(rng.sample(sents, min(len(sents), rng.randint(1, 20)))) for _ in range(n)]
    if n and rng.random() < .5:
        texts[0] = gc.to_text(sents)
    return {'texts': texts, 'at': n, 'order': order, 'nproc': rng.choice([1, 2, 3, 4]), 'error': rng.choice(sorted(_ERRORS)),
            'method': 'maximum_likelihood_estimation' if order == 1 or rng.random() < .5 else 'modified_kneser_ney',
            'existing': rng.choice([0, 1, order, order + 1]), 'key': rng.randint(0, 10 ** 6), 'rest': rng.randint(0, 3)}


def _check_source(ctx, case):
    from scrappybara.langmodel.language_model_builder import LanguageModelBuilder
    _existing(case['key'], case['existing'])
    before = _snapshot()
    error = _ERRORS[case['error']]('the source failed')

    def source():
        yield from case['texts']
        raise error

    raised = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            LanguageModelBuilder(case['order'], case['method'], case['nproc'])(source())
    except BaseException as e:
        if type(e).__name__ in ('Hang', 'Deadlock', 'Slow'):
            raise
        raised = e
    ctx.check(raised is not None, 'the build ended normally although the text source failed', at=case['at'])
    ctx.check(type(raised) is type(error), 'another error was raised', expected=repr(error), observed=repr(raised))
    ctx.equal(before, _snapshot(), 'the model directory changed', at=case['at'])
    ctx.count('failed_source')
    ctx.seen('failure_points', [case['at'], case['nproc']])
    ctx.nontrivial()
    ctx.sample({'error': case['error'], 'after texts': case['at'], 'files before': sorted(before)})


def _gen_poor(rng, ctx):
    order = rng.choice([2, 2, 3, 4])
    pick = rng.random()
    if pick < .3:
        sents = gc.poor(rng, order)
    elif pick < .8:
        sents = gc.lacking(rng, order)  # a single count is missing, at a single order
    else:
        sents = gc.rich(rng, 2, .05)
    return {'sents': [[t for t in s if t] for s in sents], 'order': order, 'nproc': rng.choice([1, 2, 4]), 'existing': rng.choice([1, 2, order]), 'key': rng.randint(0, 10 ** 6)}


def _check_poor(ctx, case):
    from scrappybara.langmodel.language_model_builder import LanguageModelBuilder
    from scrappybara.langmodel.mkn_smoother import ModifiedKneserNeyNotEnoughDataError
    from scrappybara.preprocessing.sentencizer import Sentencizer
    text = gc.to_text(case['sents'])
    table = ref_lm.counts([Sentencizer()(text)], case['order'])
    try:
        ref_lm.mkn(table, case['order'])
        return
    except ref_lm.PoorData:
        pass
    _existing(case['key'], case['existing'])
    before = _snapshot()
    raised = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            LanguageModelBuilder(case['order'], nb_processes=case['nproc'])(iter([text]))
    except ModifiedKneserNeyNotEnoughDataError as e:
        raised = e
    ctx.check(raised is not None, 'a build from too poor data was not refused', counts={n: sorted(set(c.values())) for n, c in table.items()})
    ctx.equal(before, _snapshot(), 'the model directory changed')
    ctx.count('failed_poor')
    ctx.seen('missing_counts', [[n, k] for n in range(2, case['order'] + 1) for k in (1, 2, 3, 4) if k not in table[n].values()])
    ctx.nontrivial()


def _gen_ctor(rng, ctx):
    bad = rng.random() < .5
    name = rng.choice(['', 'mkn', 'modified_kneser_ney ', 'MODIFIED_KNESER_NEY', 'maximum_likelihood', 'laplace', 'none', 'kneser_ney', 'é',
                       ''.join(rng.choice('abc_') for _ in range(rng.randint(1, 20)))])
    return {'order': rng.randint(1, 5) if bad else rng.choice([1, 0, -1, -5]), 'smoothing': name if bad else 'modified_kneser_ney', 'bad': bad,
            'explicit': rng.random() < .5}


def _check_ctor(ctx, case):
    from scrappybara.exceptions import ArgumentValueError
    from scrappybara.langmodel.language_model_builder import LanguageModelBuilder, ModifiedKneserNeyMinOrderError
    _existing(1, 2)
    before = _snapshot()
    raised = None
    try:
        if case['bad'] or case['explicit']:
            LanguageModelBuilder(case['order'], case['smoothing'])
        else:
            LanguageModelBuilder(case['order'])
    except Exception as e:
        raised = e
    expected = ArgumentValueError if case['bad'] else ModifiedKneserNeyMinOrderError
    ctx.check(isinstance(raised, expected), 'construction not rejected as it should', expected=expected.__name__, observed=repr(raised))
    ctx.equal(before, _snapshot(), 'the model directory changed')
    ctx.count('rejected')
    # Valid ones are accepted
    LanguageModelBuilder(2)
    LanguageModelBuilder(1, 'maximum_likelihood_estimation')
    LanguageModelBuilder(abs(case['order']) + 2, 'modified_kneser_ney', 3)
    ctx.seen('distinct_nontrivial', case)


KINDS = {'source': Kind(_gen_source, _check_source, 600, 4000), 'poor': Kind(_gen_poor, _check_poor, 240, 1500), 'ctor': Kind(_gen_ctor, _check_ctor, 1200, 4800)}
