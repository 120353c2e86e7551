"""Oracles playing the three neural networks, and encodings as the networks see them.

The oracle recognises each sentence from the character codes it receives, so its answers depend on the content of the row only (as those of a
trained network do), whatever the batch the row is in.  Known (registered) sentences get their annotation, others get pseudo-random labels.
"""
import os
import pickle
import random
import threading

import numpy as np

from vlib import boot, faketf

MAXW, MAXS, DIM = 20, 50, 100
FIRST, LAST = 'ʃʃʃ', 'ʄʄʄ'
UNKNOWN = '\ufffd'
LEFT, RIGHT, REDUCE, SHIFT = range(4)


def char_codes():
    with open(os.path.join(str(boot.data_dir()), 'models', 'char_codes.pkl'), 'rb') as f:
        return pickle.load(f)


def set_word_vectors(table):
    """{word: array} for the next Wordset().load()"""
    with open(os.path.join(str(boot.data_dir()), 'models', 'word_vectors.pkl'), 'wb') as f:
        pickle.dump(table, f)


def encode_chars(tokens, codes):
    """Reference encoding of a sentence"""
    unk = max(codes.values()) + 1
    out = np.zeros((MAXS + 2, MAXW + 2), dtype=np.int64)
    for i, token in enumerate([FIRST] + list(tokens) + [LAST]):
        for j, c in enumerate('†' + token[-MAXW:] + '‡'):
            out[i, j] = codes.get(c, unk)
    return out


def encode_words(tokens, vectors):
    out = np.zeros((MAXS + 2, DIM), dtype=np.float32)
    for i, token in enumerate([FIRST] + list(tokens) + [LAST]):
        if token.lower() in vectors:
            out[i] = vectors[token.lower()]
    return out


def key_of(tokens, codes):
    """What can be recognised of a sentence"""
    return tuple(''.join(c if c in codes else UNKNOWN for c in t[-MAXW:]) for t in tokens)


class Malformed(Exception):
    """A model received a row that is not the encoding of any sentence"""


class SentenceOracle(faketf.Oracle):

    def __init__(self, salt='', monitor=None):
        self.codes = char_codes()
        self.back = {v: k for k, v in self.codes.items()}
        self.back[max(self.codes.values()) + 1] = UNKNOWN
        self.salt = salt
        self.gold = {}  # key => (tags, deps, {(idx_1, idx_2): transition})
        self.decoded = {}
        self.guesses = {}
        self.monitor = monitor  # object with on_tags(keys), on_deps(key, tags, char, word), on_trans(...)
        self.fault = None  # callable(stage, keys) that may raise
        self.calls = []  # (stage, number of rows)
        self.junk_padding = False
        self.lock = threading.Lock()

    def register(self, tokens, tags, deps, transitions):
        self.gold[key_of(tokens, self.codes)] = (list(tags), list(deps), dict(transitions))

    def key(self, row):
        raw = row.tobytes()
        if raw not in self.decoded:
            self.decoded[raw] = self._decode(row)
        return self.decoded[raw]

    def _decode(self, row):
        """Reads boundary, tokens, boundary"""
        tokens = []
        for codes in row:
            text = ''.join(self.back.get(int(c), '\x00') for c in codes)
            if not text.startswith('†'):
                break
            end = text.rfind('‡')
            if end < 0:
                raise Malformed('row of codes without end mark: %r' % text)
            tokens.append(text[1:end])
        if len(tokens) < 2 or tokens[0] != FIRST or tokens[-1] != LAST:
            raise Malformed('sentence without its boundaries: %r' % tokens)
        return tuple(tokens[1:-1])

    def guess(self, key):
        """Pseudo-random labels, by content"""
        if key in self.gold:
            return self.gold[key][:2]
        if key not in self.guesses:
            rng = random.Random('%s|%r' % (self.salt, key))
            tags = [rng.choice([1, 3, 8, 8, 8, 9, 11, 12, 14, 14, 14, 15, 2, 5]) for _ in key]
            deps = [rng.choice([1, 3, 8, 8, 10, 13, 14, 17, 18, 18, 18, 19, 21, 22, 22, 24, 24, 24, 2]) for _ in key]
            self.guesses[key] = (tags, deps)
        return self.guesses[key]

    def trans_guess(self, key, i, j):
        if key in self.gold and (i, j) in self.gold[key][2]:
            return int(self.gold[key][2][i, j])
        return random.Random('%s|%r|%d|%d' % (self.salt, key, i, j)).randrange(4)

    def _labels(self, keys, which):
        out = np.zeros((len(keys), MAXS + 2), dtype=int)
        for r, key in enumerate(keys):
            labels = self.guess(key)[which]
            if self.junk_padding:
                rng = random.Random('%s|pad|%r' % (self.salt, key))
                out[r] = [rng.randrange(faketf.NB_TAGS if which == 0 else faketf.NB_DEPS) for _ in range(MAXS + 2)]
            out[r, 1:1 + len(labels)] = [int(x) for x in labels]
        return out

    def tags(self, char, word):
        keys = [self.key(row) for row in char]
        self.calls.append(('tags', len(keys)))
        if self.fault:
            self.fault('tags', keys)
        if self.monitor:
            self.monitor.on_tags(keys, char, word)
        return faketf.one_hot(self._labels(keys, 0), faketf.NB_TAGS)

    def deps(self, tags, char, word):
        keys = [self.key(row) for row in char]
        self.calls.append(('deps', len(keys)))
        if self.fault:
            self.fault('deps', keys)
        if self.monitor:
            self.monitor.on_deps(keys, tags, char, word)
        return faketf.one_hot(self._labels(keys, 1), faketf.NB_DEPS)

    def trans(self, tags, deps, char, word, mask1, mask2):
        keys = [self.key(row) for row in char]
        self.calls.append(('trans', len(keys)))
        if self.fault:
            self.fault('trans', keys)
        if self.monitor:
            self.monitor.on_trans(keys, tags, deps, char, word, mask1, mask2)
        out = []
        for key, m1, m2 in zip(keys, mask1, mask2):
            i, j = np.flatnonzero(m1), np.flatnonzero(m2)
            i, j = (int(i[0]) - 1 if len(i) else -9), (int(j[0]) - 1 if len(j) else -9)
            t = self.trans_guess(key, i, j)
            if self.monitor:
                self.monitor.on_answer(key, i, j, t)
            out.append(t)
        return faketf.one_hot(np.array(out, dtype=int), faketf.NB_TRANS)


# Annotated sentences ------------------------------------------------------------------------------------------------


def projective(rng, ids):
    """Random projective tree over the ids (in order): {child: parent}, root"""
    parents = {}

    def build(lo, hi):
        """Tree over ids[lo:hi], returns its root"""
        head = rng.randrange(lo, hi) if rng.random() < .7 else rng.choice([lo, hi - 1])
        for a, b in ((lo, head), (head + 1, hi)):
            start = a
            while start < b:
                end = rng.randint(start + 1, b)
                if rng.random() < .25:
                    end = b
                parents[ids[build(start, end)]] = ids[head]
                start = end
        return head

    root = build(0, len(ids))
    return parents, ids[root]


def gold_transitions(parents, root, ids):
    """Arc-eager transitions of a projective tree, by an independent static oracle"""
    stack, buf, out = [ids[0]], list(ids[1:]), {}
    while buf:
        if not stack:
            stack.append(buf.pop(0))
            continue
        s, b = stack[-1], buf[0]
        if parents.get(s) == b:
            t = LEFT
        elif parents.get(b) == s:
            t = RIGHT
        elif any(parents.get(b) == k or parents.get(k) == b for k in stack[:-1]):
            t = REDUCE
        else:
            t = SHIFT
        out[s, b] = t
        if t in (LEFT, REDUCE):
            stack.pop()
        if t in (RIGHT, SHIFT):
            stack.append(buf.pop(0))
    return out


class Automaton(object):
    """Arc-eager parser of one sentence, as the specification describes it"""

    def __init__(self, deps, nodep=1, root_dep=2, split_dep=23):
        self.deps = list(deps)
        self.root_dep, self.split_dep = root_dep, split_dep
        self.buf = [i for i, d in enumerate(self.deps) if d != nodep]
        self.stack = [self.buf.pop(0)] if self.buf else []
        self.parent = {}
        self.order = []  # arcs in order of registration
        self.steps = 0

    @property
    def pair(self):
        return (self.stack[-1], self.buf[0]) if self.buf else None

    def arc(self, parent, child):
        if child not in self.parent:
            d = self.deps[child]
            self.parent[child] = (self.split_dep if d == self.root_dep else d, parent)
            self.order.append(child)

    def step(self, t):
        self.steps += 1
        s, b = self.pair
        if t == LEFT:
            self.arc(b, s)
        elif t == RIGHT:
            self.arc(s, b)
        if t in (LEFT, REDUCE):
            self.stack.pop()
            if not self.stack:
                self.stack.append(self.buf.pop(0))
        else:
            self.stack.append(self.buf.pop(0))


def tree_arcs(tree):
    """{child: (label, parent)} of a real tree, through its queries"""
    if tree is None:
        return {}
    return {child: (int(label), parent) for label, parent, child in tree}
