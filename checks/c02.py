"""The same texts under many configurations, neighbours and thread schedules."""
import contextlib

from vlib import pipe_env as pe
from vlib.core import Kind

RULE = ('A set of texts is processed once with one core and batches of one sentence, one text per call; then again with other numbers of cores, batch sizes and device flags, in other orders, with foreign texts before, between and after, '
        'with the same text several times, in several calls, and (clause-rich texts eight times over) under a line-level thread scheduler (on every line, or on a random part of the files of the package), with texts that outlast any time limit of the code, or with injected delays in the sentence splitter and the networks. Every text must get the same document each time. '
        'Non-trivial: a run with at least two texts with tuples; distinct by (texts, configuration).')
REQUIRE = {'runs': 600, 'documents_compared': 2500, 'tuples': 3000, 'scheduled_runs': 500, 'dilated_runs': 8, 'jitter_runs': 80, 'configurations': 60, 'foreign_texts': 300, 'distinct_nontrivial': 300}
ANCHORS = ['pipeline/pipeline.py', 'pipeline/logic_pipeline.py', 'syntax/parser.py', 'utils/multithreading.py', 'utils/mutables.py']

setup = pe.setup


def _run(rng, n):
    order = list(range(n))
    rng.shuffle(order)
    if rng.random() < .3:
        order = order[:rng.randint(1, n)]
    if rng.random() < .3:
        order.insert(rng.randrange(len(order) + 1), rng.choice(order))
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        order.insert(rng.choice([0, len(order), rng.randrange(len(order) + 1)]), -rng.randint(1, 3))  # foreign text
    return {'order': order, 'cores': rng.choice([1, 2, 2, 3, 4, 5, 6, 7, 8, 13, 64]), 'batch': rng.choice([1, 2, 2, 3, 4, 5, 6, 7, 16, 128]), 'gpu': rng.random() < .5,
            'schedule': 'dilated' if rng.random() < .02 else rng.choice(['free', 'free', 'sched', 'jitter']), 'seed': rng.randint(0, 10 ** 9)}


def _gen(rng, ctx):
    docs = [pe.document(rng, .05, (0, 1, 1, 2, 3, 4)) for _ in range(rng.choice([1, 2, 3, 4, 6]))]
    foreign = [pe.document(rng, .05, (0, 1, 2, 4)) for _ in range(3)]
    if rng.random() < .4:
        foreign[0] = [s for d in docs for s in d if rng.random() < .5][::-1]  # shares sentences
    pool = [s for d in docs for s in d]
    if pool and rng.random() < .6:
        foreign[1] = [pe.kin(rng, rng.choice(pool)) for _ in range(rng.choice([1, 2, 4]))]  # resembles their sentences
    return {'docs': docs, 'foreign': foreign, 'runs': [_run(rng, len(docs)) for _ in range(4)], 'chunk': rng.random() < .8}


def _gen_many(rng, ctx):
    """Many sentences, small and large batches"""
    pool = [pe.svo(rng, []) for _ in range(40)] + [pe.clause(rng) for _ in range(20)] + [pe.babble(rng, rng.randint(1, 6)) for _ in range(20)]
    total = rng.choice([70, 100, 130, 200, 260])
    cut = rng.randint(1, total - 1)
    sents = [rng.choice(pool) for _ in range(total)]
    runs = [dict(_run(rng, 2), order=[0, 1], batch=b) for b in rng.sample([1, 2, 3, 7, 64, 128, 200, 500], 3)]
    return {'docs': [sents[:cut], sents[cut:]], 'foreign': [[]] * 3, 'runs': [dict(r, schedule='free') for r in runs], 'chunk': True}


def _gen_races(rng, ctx):
    """Sentences that use every step of the analysis, processed by a few threads switched line by line"""
    docs = [[pe.clause(rng) for _ in range(rng.choice([1, 2, 3, 4]))] for _ in range(rng.choice([1, 2, 3]))]
    n = len(docs)
    return {'docs': docs, 'foreign': [[]] * 3, 'chunk': rng.random() < .8,
            'runs': [dict(_run(rng, n), order=list(range(n)), cores=rng.choice([2, 2, 3, 4, 8]), schedule='sched') for _ in range(8)]}


class _Points(object):
    """Scheduling points in what the harness plays"""

    def __init__(self, s):
        self.s = s

    def __call__(self, *args):
        self.s.point(-1)


def _check(ctx, case):
    env = ctx.env
    pe.forget(env)
    n = len(case['docs'])
    names = ['text %d' % k for k in range(n)] + ['foreign %d' % k for k in range(len(case['foreign']))]
    names = pe.prepare(env, case['docs'] + case['foreign'], names)
    base = {}
    single = pe.pipeline(env, 1, 1)
    for t in names[:n]:
        if sum(map(len, case['docs'])) > 60:
            base[t] = pe.expected(env, [[list(s) for s in env.texts[t]]], case['chunk'])
            continue
        base[t] = pe.outcome(single([t], chunk_common_nouns=case['chunk']))
        ctx.equal(1, len(base[t]), 'number of documents for one text')
    for run in case['runs']:
        texts = [names[k] if k >= 0 else names[n - 1 - k] for k in run['order']]
        pipe = pe.pipeline(env, run['cores'], run['batch'], run['gpu'])
        s = pe.schedule(run['schedule'], run['seed'])
        try:
            if s:
                env.hook = _Points(s)
                env.oracle.fault = _Points(s) if run['schedule'] == 'jitter' else None
            with s or contextlib.nullcontext():
                got = pe.outcome(pipe(texts, chunk_common_nouns=case['chunk']))
        finally:
            env.hook = env.oracle.fault = None
        info = {k: run[k] for k in ('cores', 'batch', 'gpu', 'schedule', 'order')}
        ctx.equal(len(texts), len(got), 'number of documents', config=info)
        rich = 0
        for t, g in zip(texts, got):
            if t in base:
                ctx.equal(base[t][0], g, 'the document of a text depends on the configuration or on its neighbours', config=info, text=env.texts[t])
                ctx.count('documents_compared')
                ctx.count('tuples', sum(map(len, g)))
                rich += any(g)
            else:
                ctx.count('foreign_texts')
        ctx.count('runs')
        ctx.seen('configurations', [run['cores'], run['batch'], run['gpu']])
        if run['schedule'] == 'sched':
            ctx.count('scheduled_runs')
            ctx.seen('interleavings', s.signature)
            ctx.count('switches', s.switches)
            ctx.count('scheduler_timeouts', s.timeouts)
        elif run['schedule'] == 'jitter':
            ctx.count('jitter_runs')
        elif run['schedule'] == 'dilated':
            ctx.count('dilated_runs')
        if rich > 1:
            ctx.nontrivial([case['docs'], info])
            ctx.sample(info)


KINDS = {'configurations': Kind(_gen, _check, 320, 6000), 'many': Kind(_gen_many, _check, 16, 200), 'races': Kind(_gen_races, _check, 120, 3000)}
