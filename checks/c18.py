"""Standardizer against the table-driven reference."""
from vlib import gen_words as gw, lmfiles, ref_norm as rn
from vlib.core import Kind

RULE = ('Language models giving random probabilities and counts (around the threshold of five) to spelling variants; words built from '
        'every pair of variants and every ending, with short stems, capitals, non-letters, several variant pairs in one word. '
        'Non-trivial: the word is changed, or kept because it was seen five times although a variant is known.')
REQUIRE = {'words': 50000, 'distinct_nontrivial': 5000, 'changed': 3000, 'kept_known': 1500, 'patterns': 30}
ANCHORS = ['normalization/standardizer.py']

_PAIRS = [
    (('our', 'or'), ('ing', 'ed', 's', '', 'er', 'ist', 'ful', 'y', 'able')),
    (('yse', 'yze'), ('', 's', 'd', 'r', 'rs')), (('ise', 'ize'), ('', 's', 'd', 'r', 'rs', 'ment')),
    (('isation', 'ization'), ('', 's')), (('ysation', 'yzation'), ('', 's')), (('ising', 'izing'), ('',)), (('ysing', 'yzing'), ('',)),
    (('ce', 'se'), ('', 's', 'd', 'r', 'less')), (('cive', 'sive'), ('', 's')),
    (('og', 'ogue'), ('', 's', 'd', 'r', 'ing')),
    (('el', 'ell'), ('ing', 'ers', 'ed', 'er', 's', '', 'able', 'ous', 'ist', 'ment')),
]


def _word(rng):
    """Returns (word, variants)"""
    stem = gw.stem(rng)
    k = rng.random()
    if k < .25:
        stem = stem[:rng.randint(1, 4)]
    if rng.random() < .22:
        pair = rng.choice(['ae', 'oe'])
        pos = rng.randint(0, len(stem))
        word = stem[:pos] + pair + stem[pos:]
        return word, {word, word.replace('ae', 'e'), word.replace('oe', 'e'), word.replace('ae', 'e').replace('oe', 'e')}
    variants, ends = rng.choice(_PAIRS)
    end = rng.choice(ends)
    a, b = variants if rng.random() < .5 else variants[::-1]
    if rng.random() < .05:
        stem = stem + rng.choice(['-', "'", '2', ' ']) + gw.stem(rng)
    word = stem + a + end
    known = {stem + v + e for v in variants for e in ends}
    for s, e in (('our', 'or'), ('se', 'ce'), ('ze', 'se'), ('og', 'ogue')):
        known |= {stem + s, stem + e, stem + 'i' + s, stem + 'y' + s, stem + 'y' + e, stem + 'i' + e}
    # The whole word can end with another pair as well
    for middles, endings, cands, _ in rn._SPELL:
        parts = rn._cut(word, middles, endings)
        if parts:
            known |= set(cands(parts[0], parts[1]))
    return word, known | {word}


def _gen(rng, ctx):
    words, known = [], set()
    p = rng.choice([.1, .3, .6, .9])
    for _ in range(60):
        word, variants = _word(rng)
        if rng.random() < .08:
            variants = {w for v in variants for w in (v, v.capitalize())}
            word = word.capitalize()
        words.append(word)
        known |= {v for v in sorted(variants) if ' ' not in v and rng.random() < p}
        if rng.random() < .5:
            known.discard(word)
    return {'words': words, 'lm': [lmfiles.distinct_probas(rng, sorted(known)), {}]}


def _check(ctx, case):
    from scrappybara.normalization.standardizer import Standardizer
    lm, ref = lmfiles.install([{k: tuple(v) for k, v in table.items()} for table in case['lm']])
    standardize = Standardizer(lm)
    for word in case['words']:
        expected = rn.standard(word, ref)
        ctx.equal(expected, standardize(word), 'standard form of %r' % word)
        ctx.count('words')
        if expected != word:
            ctx.count('changed')
            ctx.nontrivial([word, expected])
            ctx.seen('patterns', [word[-4:], expected[-4:]])
        elif ref.has(word, 5):
            ctx.count('kept_known')
            ctx.nontrivial([word, 'known'])
    ctx.sample({'words': case['words'][:5]})


KINDS = {'words': Kind(_gen, _check, 7200, 40000)}
