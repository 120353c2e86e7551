"""Random annotated sentences: (token, tag name, dep name, parent) tuples."""
from vlib import models as M

TAGS = ['ADJ', 'PREP', 'ADV', 'MAT', 'CONJ', 'DET', 'EXPR', 'NOUN', 'NUM', 'FRAG', 'PRON', 'PROPN', 'PUNCT', 'VERB', 'SYM', 'THERE']
TAG_CODE = {'PAD': 0, 'ADJ': 1, 'PREP': 2, 'ADV': 3, 'MAT': 4, 'CONJ': 5, 'DET': 6, 'EXPR': 7, 'NOUN': 8, 'NUM': 9, 'FRAG': 10, 'PRON': 11, 'PROPN': 12, 'PUNCT': 13,
            'VERB': 14, 'SYM': 15, 'THERE': 16}
DEPS = ['PAD', 'NODEP', 'ROOT', 'AND', 'ART', 'AUX', 'CALLEE', 'CMARK', 'CPL', 'EXIST', 'FLAT', 'IMARK', 'INTJ', 'IOBJ', 'IPROP', 'MARK', 'MODAL', 'NEG', 'OBJ', 'OR',
        'ORPHAN', 'PART', 'PROP', 'SPLIT', 'SUBJ']
DEP_CODE = {d: i for i, d in enumerate(DEPS)}
IN_TREE = DEPS[3:]


def word(rng):
    return ''.join(rng.choice('abcdefghijklmnopqrstuvwxyz') for _ in range(rng.randint(1, 8)))


def annotated(rng, n=None, ident=None, p_nodep=None):
    """Projective annotated sentence of n tokens; the first token is a unique word"""
    n = n or (rng.choice([1, 2, 3, 48, 49, 50]) if rng.random() < .15 else rng.randint(2, 16))
    p = rng.choice([0., .1, .3, .6]) if p_nodep is None else p_nodep
    ids = [i for i in range(n) if rng.random() >= p] or [rng.randrange(n)]
    parents, root = M.projective(rng, ids)
    sample = []
    ident = ident or 'id' + ''.join(rng.choice('abcdefghijklmnop') for _ in range(10))
    for i in range(n):
        token = ident if i == 0 else word(rng)
        if i not in ids:
            dep, parent = 'NODEP', -1
        elif i == root:
            dep, parent = 'ROOT', -1
        else:
            dep, parent = rng.choice(IN_TREE), parents[i]
        sample.append([token, rng.choice(TAGS), dep, parent])
    return sample


def arcs(sample):
    return {i: (DEP_CODE[d], p) for i, (_, _, d, p) in enumerate(sample) if d not in ('ROOT', 'NODEP')}


def root(sample):
    return [i for i, r in enumerate(sample) if r[2] == 'ROOT'][0]
