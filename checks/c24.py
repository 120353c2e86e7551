"""Training data: each sample is a sentence with its own labels, none lost, none mixed."""
import collections
import hashlib
import random

import numpy as np

from vlib import gen_trees as gt, models as M
from vlib.core import Kind

RULE = ('Sets of 1 to 65 (a few of 1500) random annotated projective sentences (unique first words) with word vectors; the arrays returned are regrouped into samples and compared, as multisets, with a reference encoding of each sentence, '
        'its labels, its masks and its transitions. Non-trivial: at least two sentences.')
REQUIRE = {'ptags_samples': 1500, 'pdeps_samples': 1500, 'trans_samples': 8000, 'distinct_nontrivial': 300, 'shuffled': 100, 'relatives': 200, 'large_sets': 20, 'huge_sets': 1}
ANCHORS = ['syntax/labelled_data.py', 'syntax/training_samples.py']


def _gen(rng, ctx):
    n = rng.choice([1, 2, 3, 5, 8]) if rng.random() < .94 else rng.choice([21, 33, 65])
    samples = [gt.annotated(rng) for _ in range(n)]
    if rng.random() < .2:
        samples.append(samples[0])  # the same sentence twice
    while rng.random() < .4:
        # a close relative: same words in another case, with other labels, cut at another place, or longer
        twin = [list(r) for r in rng.choice(samples)]
        how = rng.choice(['case', 'case', 'labels', 'cut', 'cut', 'order'])
        if how == 'case':
            for r in twin:
                if rng.random() < .6:
                    r[0] = rng.choice([str.upper, str.lower, str.capitalize, str.swapcase])(r[0])
        elif how == 'labels':
            for r, o in zip(twin, rng.choice(samples)):
                r[1] = o[1]
        elif how == 'order':
            words = [r[0] for r in twin]
            rng.shuffle(words)
            for r, w in zip(twin, words):
                r[0] = w
        elif len(twin) > 1:
            i = rng.randrange(len(twin) - 1)
            both = twin[i][0] + twin[i + 1][0]
            if len(both) > 1:
                k = rng.randint(1, len(both) - 1)
                twin[i][0], twin[i + 1][0] = both[:k], both[k:]
        samples.append(twin)
        ctx.count('relatives')
    return {'samples': samples, 'seed': rng.randint(0, 10 ** 6), 'vectors': {r[0].lower(): rng.randint(0, 10 ** 6) for s in samples for r in s if rng.random() < .5}}


def _blob(*arrays):
    return tuple(hashlib.sha1(np.ascontiguousarray(np.asarray(a).astype(np.float64)).tobytes()).digest() for a in arrays)


def _row(values):
    out = np.zeros(52)
    out[1:1 + len(values)] = values
    return out


def _compare(ctx, expected, columns, what):
    """Expected: list of (name, arrays); columns: what the real code returned"""
    sizes = {len(c) for c in columns}
    ctx.equal({len(expected)}, sizes, 'number of %s samples' % what)
    want = collections.Counter(_blob(*arrays) for _, arrays in expected)
    got = [_blob(*row) for row in zip(*columns)]
    names = {}
    for name, arrays in expected:
        names.setdefault(_blob(*arrays), name)
    missing = want - collections.Counter(got)
    ctx.check(not missing, '%s samples that are not in the training data' % what, samples=[names[b] for b in list(missing)[:3]])
    ctx.count('%s_samples' % what, len(expected))
    if [_blob(*a) for _, a in expected] != got:
        ctx.count('shuffled')


def _check(ctx, case):
    from scrappybara.syntax.charset import Charset
    from scrappybara.syntax.labelled_data import extract_pdeps_training_data, extract_ptags_training_data, extract_trans_training_data
    from scrappybara.syntax.wordset import Wordset
    vectors = {w: np.random.RandomState(s).uniform(-1, 1, M.DIM).astype(np.float32) for w, s in case['vectors'].items()}
    M.set_word_vectors(vectors)
    charset, wordset, codes = Charset().load(), Wordset().load(), M.char_codes()
    random.seed(case['seed'])
    tuples = [[tuple(r) for r in s] for s in case['samples']]
    ptags, pdeps, trans = [], [], []
    for s in case['samples']:
        tokens = [r[0] for r in s]
        chars, words = M.encode_chars(tokens, codes), M.encode_words(tokens, vectors)
        tags, deps = _row([gt.TAG_CODE[r[1]] for r in s]), _row([gt.DEP_CODE[r[2]] for r in s])
        ptags.append((tokens, (chars, words, tags)))
        pdeps.append((tokens, (tags, chars, words, deps)))
        ids = [i for i, r in enumerate(s) if r[2] != 'NODEP']
        parents = {i: p for i, (_, p) in gt.arcs(s).items()}
        for (i, j), t in M.gold_transitions(parents, gt.root(s), ids).items():
            m1, m2 = np.zeros(52), np.zeros(52)
            m1[i + 1] = m2[j + 1] = 1
            trans.append(((tokens, i, j, t), (tags, deps, chars, words, m1, m2, np.array(t))))
    _compare(ctx, ptags, extract_ptags_training_data(tuples, charset, wordset), 'ptags')
    _compare(ctx, pdeps, extract_pdeps_training_data(tuples, charset, wordset), 'pdeps')
    if trans:
        _compare(ctx, trans, extract_trans_training_data(tuples, charset, wordset), 'trans')
    ctx.count('large_sets', len(tuples) > 20)
    ctx.count('huge_sets', len(tuples) > 1000 and len(trans) > 5000)
    if len(tuples) > 1:
        ctx.nontrivial(case['samples'])
        ctx.sample(case['samples'][0])


def _gen_huge(rng, ctx):
    """Very many sentences"""
    base = [gt.annotated(rng, rng.randint(3, 8), p_nodep=.1) for _ in range(30)]
    samples = []
    for i in range(rng.choice([700, 1100, 1100])):
        s = [list(r) for r in rng.choice(base)]
        s[0][0] = 'n' + ''.join('abcdefghij'[int(d)] for d in str(i))
        samples.append(s)
    return {'samples': samples, 'seed': rng.randint(0, 10 ** 6), 'vectors': {}}


KINDS = {'sets': Kind(_gen, _check, 900, 15000), 'huge': Kind(_gen_huge, _check, 8, 60)}
