"""Past participles against the reference."""
from vlib import gen_words as gw, lmfiles, ref_norm as rn
from vlib.core import Kind

RULE = ('Irregular tables (real and synthetic), verbs of every ending class and of one letter upwards, language models supporting one, both or '
        'none of the doubled and undoubled forms, alone and within longer n-grams. Non-trivial: every verb; distinct by (verb, participle).')
REQUIRE = {'verbs': 50000, 'distinct_nontrivial': 10000, 'irregular': 2000, 'doubled': 1000, 'not_doubled': 1000, 'with_bigrams': 500}
ANCHORS = ['normalization/inflector.py']


def setup(ctx):
    ctx.tables = lmfiles.load_tables()


def _gen(rng, ctx):
    synthetic = rng.random() < .4
    table = dict(ctx.tables['lemma_pp']) if not synthetic else {gw.stem(rng): gw.stem(rng) + 'en' for _ in range(rng.randint(0, 10))}
    verbs, known = [], set()
    p = rng.choice([.1, .5, .9])
    for _ in range(60):
        k = rng.random()
        if k < .15 and table:
            verb = rng.choice(sorted(table))
        elif k < .2:
            verb = ''.join(rng.choice(rn.LOW) for _ in range(rng.randint(1, 3)))
        else:
            verb = gw.affix(rng, gw.stem(rng)) + rng.choice(['', '', '', 'e', 'y', 'ie', 'ee', 'ey', 'op', 'el', 'w', 'x', 'o'])
        verbs.append(verb)
        for c in (verb + 'ed', verb + verb[-1] + 'ed', verb + 'd', verb, verb[:-1] + 'ied'):
            if rng.random() < p:
                known.add(c)
    grams = sorted(known)
    around = rng.sample(['was', 'were', 'is', 'has', 'had', 'be', 'i', 'they', 'it', 'by', 'been', 'can', 'could'], 5)
    bi = {rng.choice(['%s %s', '%s %s', '%s %s']) % (rng.choice(around), rng.choice(grams)) for _ in range(rng.choice([0, 60, 200]))} if grams else set()
    bi |= {'%s %s' % (rng.choice(grams), rng.choice(around)) for _ in range(len(bi) // 4)}
    tri = {'%s %s' % (rng.choice(around), b) for b in sorted(bi) if rng.random() < .2}
    for w in around:
        if rng.random() < .5:
            known.add(w)
    ctx.count('with_bigrams', bool(bi))
    return {'verbs': verbs, 'table': sorted(table.items()) if synthetic else None, 'lm': [lmfiles.distinct_probas(rng, sorted(known)), lmfiles.distinct_probas(rng, sorted(bi), rng.choice([1e-7, 1e-5])), lmfiles.distinct_probas(rng, sorted(tri), 1e-7)][:rng.choice([1, 2, 3, 3])]}


def _check(ctx, case):
    from scrappybara.normalization.inflector import Inflector
    lm, ref = lmfiles.install([{k: tuple(v) for k, v in table.items()} for table in case['lm']])
    table = ctx.tables['lemma_pp'] if case['table'] is None else dict(case['table'])
    inflector = Inflector(lm, table)
    for verb in case['verbs']:
        expected = rn.participle(verb, ref, table)
        ctx.equal(expected, inflector.past_participle(verb), 'past participle of %r' % verb)
        ctx.count('verbs')
        ctx.nontrivial([verb, expected])
        if verb in table:
            ctx.count('irregular')
        elif expected == verb + verb[-1] + 'ed':
            ctx.count('doubled')
        elif verb[-1] in rn.CONS:
            ctx.count('not_doubled')
    ctx.sample({'verbs': case['verbs'][:6]})


KINDS = {'verbs': Kind(_gen, _check, 12000, 48000)}
