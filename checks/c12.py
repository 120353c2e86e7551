"""Modified Kneser-Ney probabilities against exact rational arithmetic."""
from vlib import gen_corpus as gc, ref_lm
from vlib.core import Kind

RULE = ('Corpora with n-grams seen one to many times at every order (2 to 6) and corpora that lack some, sentences seen up to 10^12 times, and corpora with more than 32768 n-grams of an order or a vocabulary of thousands of words, counted, shuffled, smoothed with 1 to 9 '
        'processes; every probability and every reported discount is compared with the estimator in exact fractions (relative tolerance 1e-9). Non-trivial: a corpus '
        'rich enough to be smoothed; distinct by corpus.')
REQUIRE = {'probabilities': 30000, 'distinct_nontrivial': 300, 'refused': 50, 'process_counts': 4, 'interpolated': 10000, 'high_counts': 500, 'missing_counts': 10, 'large_orders': 4, 'large_vocabularies': 1, 'large_counts': 200, 'order_5': 100, 'order_6': 100, 'discounts': 2000}
ANCHORS = ['langmodel/mkn_smoother.py', 'langmodel/smoother.py', 'langmodel/ngram.py']


def _gen(rng, ctx):
    order = rng.choice([2, 2, 3, 3, 4, 4, 5, 6])
    k = rng.random()
    sents = gc.rich(rng, order, .08 if order < 4 else .02) if k < .75 else gc.lacking(rng, order) if k < .92 else gc.poor(rng, order)
    if k < .15:
        # A few n-grams seen very often
        often = rng.choice([5, 8, 20, 60, 300])
        sents = sents + [rng.choice(sents)] * often
    return {'sents': sents, 'order': order, 'procs': sorted({1, rng.randint(2, 4), rng.randint(5, 9)}), 'shuffle': rng.randint(0, 10 ** 6)}


def _smooth(case, nproc, grams):
    from scrappybara.langmodel.mkn_smoother import MKNSmoother
    from scrappybara.langmodel.ngram_store import NgramStore
    store = NgramStore()
    for g in grams:
        if isinstance(g, str):
            store.make_ngram(g)
        else:
            store.make_ngram(g[0]).count = g[1]
    smoother = MKNSmoother(store.ngrams, case['order'], nproc)()
    result = {}
    for n in range(1, case['order'] + 1):
        for g in smoother.ngrams(n):
            result[g.text] = (g.count, float(g.proba))
    return result, {n: [float(d(n)) for d in (smoother.discount_1, smoother.discount_2, smoother.discount_3)] for n in range(2, case['order'] + 1)}


def _gen_weights(rng, ctx):
    """Sentences seen so often that they cannot be written out"""
    order = rng.choice([2, 2, 3])
    sents = [[t for t in s if t] for s in gc.rich(rng, order, .02)]
    vocab = sorted({t for s in sents for t in s})
    more = [[gc.sentence(rng, vocab, 0, 2, 8), rng.choice([9, 100, 255, 256, 32767, 32768, 65535, 65536, 10 ** 6, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 1, 10 ** 12])] for _ in range(rng.randint(1, 3))]
    return {'sents': sents, 'order': order, 'weighted': more, 'procs': [1, rng.randint(2, 9)], 'shuffle': rng.randint(0, 10 ** 6)}


def _gen_large(rng, ctx):
    return {'seed': rng.randint(0, 10 ** 9), 'words': rng.choice([280, 320, 400]), 'wide': False, 'order': 2, 'procs': [rng.choice([1, 2]), rng.randint(3, 9)], 'shuffle': rng.randint(0, 10 ** 6)}


def _gen_wide(rng, ctx):
    return dict(_gen_large(rng, ctx), wide=True)


def _large(case):
    import random
    r = random.Random(case['seed'])
    if case.get('wide'):  # a large vocabulary, some words much more frequent than others
        vocab = sorted({''.join(r.choice('abcdefghijklmnop') for _ in range(4)) for _ in range(12000)})
        return [[vocab[int(len(vocab) * r.random() ** 4)] for _ in range(25)] for _ in range(3600)]
    vocab = sorted({''.join(r.choice('abcdefghijklmnop') for _ in range(3)) for _ in range(case['words'])})
    return [[r.choice(vocab) for _ in range(25)] for _ in range(3200)]


def _check(ctx, case):
    import random
    from scrappybara.langmodel.mkn_smoother import ModifiedKneserNeyNotEnoughDataError
    sents = case['sents'] if 'sents' in case else _large(case)
    table = ref_lm.counts([sents], case['order'])
    for sent, times in case.get('weighted', []):
        for n, found in ref_lm.counts([[sent]], case['order']).items():
            for g, k in found.items():
                table[n][g] = table[n].get(g, 0) + k * times
    direct = 'sents' not in case or 'weighted' in case
    grams = [(g, k) for n in table for g, k in table[n].items()] if direct else [g for n in table for g, k in table[n].items() for _ in range(k)]
    ctx.count('large_vocabularies', len(table[1]) > 5000)
    ctx.count('large_orders', any(len(found) > 2 ** 15 for found in table.values()))
    ctx.count('large_counts', any(k > 2 ** 16 for found in table.values() for k in found.values()))
    ctx.count('order_%d' % case['order'])
    try:
        expected = ref_lm.mkn(table, case['order'])
    except ref_lm.PoorData:
        expected = None
    for nproc in case['procs']:
        random.Random(case['shuffle'] + nproc).shuffle(grams)
        try:
            observed, cuts = _smooth(case, nproc, grams)
        except ModifiedKneserNeyNotEnoughDataError:
            observed = None
        ctx.seen('process_counts', nproc)
        ctx.seen('missing_counts', [[n, k] for n in range(2, case['order'] + 1) for k in (1, 2, 3, 4) if k not in table[n].values()])
        if expected is None or observed is None:
            ctx.check(expected is None and observed is None, 'refused' if observed is None else 'not refused',
                      counts={n: sorted(set(c.values())) for n, c in table.items()})
            ctx.count('refused')
            continue
        for n, wanted in ref_lm.discounts(table, case['order']).items():
            ctx.check(all(ref_lm.close(a, b) or abs(a - b) < 1e-12 for a, b in zip(wanted, cuts[n])), 'discounts of order %d' % n, expected=[float(w) for w in wanted], observed=cuts[n])
            ctx.count('discounts')
        flat = {g: (table[n][g], p) for n in expected for g, p in expected[n].items()}
        ctx.equal(sorted(flat), sorted(observed), 'n-grams with a probability')
        for g, (count, proba) in flat.items():
            ctx.counters['assertions'] += 1
            if observed[g][0] != count or not ref_lm.close(proba, observed[g][1]):
                ctx.fail('probability of %r' % g, expected=(count, float(proba)), observed=observed[g], nproc=nproc, order=case['order'])
            if ' ' in g:
                ctx.count('interpolated')
            if count > 4:
                ctx.count('high_counts')
        ctx.count('probabilities', len(flat))
        ctx.nontrivial([sents[:200], case['order']])
        ctx.sample({'order': case['order'], 'nproc': nproc, 'some': sorted(observed.items())[:6]})


KINDS = {'corpus': Kind(_gen, _check, 4000, 20000), 'weights': Kind(_gen_weights, _check, 800, 8000), 'large': Kind(_gen_large, _check, 8, 80), 'wide': Kind(_gen_wide, _check, 4, 40)}
