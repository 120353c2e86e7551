"""Maximum-likelihood probabilities are count over total of the order."""
import random

from vlib import gen_corpus as gc, ref_lm
from vlib.core import Kind

RULE = ('Corpora of every size (empty ones and orders without n-grams included), any maximal order 1 to 5 and 1 to 12 processes; stores with counts up to 10^12, with orders lacking below others, more processes than n-grams, and more than 65536 n-grams of an order. '
        'Non-trivial: at least two n-grams with different counts.')
REQUIRE = {'probabilities': 30000, 'distinct_nontrivial': 500, 'empty_orders': 100, 'process_counts': 5, 'large_counts': 1000, 'order_gaps': 300, 'large_orders': 4}
ANCHORS = ['langmodel/mle_smoother.py', 'langmodel/smoother.py']


def _gen(rng, ctx):
    order = rng.randint(1, 5)
    sents = gc.rich(rng, min(order, 3)) if rng.random() < .6 else gc.poor(rng, order)
    return {'sents': sents, 'order': order, 'procs': sorted({1, rng.randint(2, 12), rng.randint(2, 12)})}


def _check(ctx, case):
    from scrappybara.langmodel.mle_smoother import MLESmoother
    from scrappybara.langmodel.ngram_store import NgramStore
    table = ref_lm.counts([case['sents']], case['order'])
    expected = ref_lm.mle(table)
    for nproc in case['procs']:
        store = NgramStore()
        for n in table:
            for g, k in table[n].items():
                for _ in range(k):
                    store.make_ngram(g)
        smoother = MLESmoother(store.ngrams, case['order'], nproc)()
        ctx.seen('process_counts', nproc)
        for n in range(1, case['order'] + 1):
            observed = {g.text: (g.count, float(g.proba)) for g in smoother.ngrams(n)}
            ctx.equal(sorted(expected[n]), sorted(observed), 'n-grams of order %d' % n)
            ctx.equal(len(expected[n]), len(list(smoother.ngrams(n))), 'number of n-grams of order %d' % n)
            if not expected[n]:
                ctx.count('empty_orders')
            for g, p in expected[n].items():
                ctx.check(observed[g][0] == table[n][g] and ref_lm.close(p, observed[g][1]), 'probability of %r' % g,
                          expected=(table[n][g], float(p)), observed=observed[g], nproc=nproc)
            ctx.count('probabilities', len(observed))
    if len(set(table[1].values())) > 1:
        ctx.nontrivial()
        ctx.sample({'order': case['order'], 'procs': case['procs'], 'counts': sorted(table[1].items())[:8]})


def _gen_counts(rng, ctx):
    """Counts of any size, also orders without n-grams below others"""
    order = rng.randint(1, 5)
    present = [n for n in range(1, order + 1) if rng.random() < .65] or [order]
    rows = []
    for n in present:
        for _ in range(rng.choice([1, 2, 3, 5, 12, 40])):
            rows.append([' '.join(rng.choice(gc.VOCAB) for _ in range(n)), rng.choice([1, 1, 2, 3, 5, 100, 255, 256, 257, 32767, 32768, 65535, 65536, 70000, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 5, 10 ** 12])])
    rng.shuffle(rows)
    return {'rows': [list(x) for x in dict(rows).items()], 'order': order, 'procs': sorted({1, rng.randint(2, 12), rng.randint(13, 60)})}


def _check_counts(ctx, case):
    from scrappybara.langmodel.mle_smoother import MLESmoother
    from scrappybara.langmodel.ngram_store import NgramStore
    totals = {}
    for g, c in case['rows']:
        n = len(g.split())
        totals[n] = totals.get(n, 0) + c
    for nproc in case['procs']:
        store = NgramStore()
        for g, c in case['rows']:
            store.make_ngram(g).count = c
        smoother = MLESmoother(store.ngrams, case['order'], nproc)()
        for n in range(1, case['order'] + 1):
            observed = {g.text: (g.count, float(g.proba)) for g in smoother.ngrams(n)}
            expected = {g: (c, c / totals[n]) for g, c in case['rows'] if len(g.split()) == n}
            ctx.equal(sorted(expected), sorted(observed), 'n-grams of order %d' % n, nproc=nproc)
            for g, (c, p) in expected.items():
                ctx.check(observed[g][0] == c and ref_lm.close(p, observed[g][1]), 'probability of %r' % g, expected=(c, p), observed=observed[g], total=totals[n], nproc=nproc)
            ctx.count('probabilities', len(observed))
            ctx.count('large_counts', any(c > 65535 for c, _ in expected.values()))
            ctx.count('order_gaps', not expected and any(m > n for m in totals))
    ctx.nontrivial(case['rows'][:300])


def _gen_large(rng, ctx):
    return {'seed': rng.randint(0, 10 ** 9), 'size': rng.choice([33000, 40000, 66000]), 'order': rng.choice([1, 2]), 'procs': [1, rng.randint(2, 9)]}


def _check_large(ctx, case):
    r = random.Random(case['seed'])
    rows = {}
    while len(rows) < case['size']:
        rows[' '.join(''.join(r.choice('abcdefghij') for _ in range(6)) for _ in range(case['order']))] = r.choice([1, 1, 1, 2, 3, 9])
    ctx.count('large_orders')
    _check_counts(ctx, {'rows': list(rows.items()), 'order': case['order'], 'procs': case['procs']})


KINDS = {'corpus': Kind(_gen, _check, 2400, 40000), 'counts': Kind(_gen_counts, _check_counts, 1500, 30000), 'large': Kind(_gen_large, _check_large, 8, 80)}
