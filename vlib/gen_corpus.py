"""Corpora: sentences of tokens and texts, with controlled repetition."""
import random

VOCAB = ('a of the in to and is it he she we they you tower hotel list classic pyramid building land blue red runs eats sees '
         'makes big small old new with for as on at by from up out iPhone eBay mIxEd').split()
BREAK = ['I', 'Paris', 'NASA', '42', "n't", '-', 'é', 'naïve', 'x1', ',', '(', 'Ünal', 'e-mail', "'s", '', 'ß', 'a.b', 'ſun', 'IT', 'I', 'i']


def sentence(rng, vocab, p_break=.1, lo=0, hi=12):
    return [rng.choice(BREAK) if rng.random() < p_break else rng.choice(vocab) for _ in range(rng.randint(lo, hi))]


def vocabulary(rng, size=None):
    size = size or rng.choice([2, 3, 5, 8, 15, 30])
    vocab = rng.sample(VOCAB, min(size, len(VOCAB)))
    while len(vocab) < size:
        vocab.append(''.join(rng.choice('abcdefghij') for _ in range(rng.randint(1, 6))))
    if rng.random() < .1:
        vocab[-1] = ''.join(rng.choice('abcdefghij') for _ in range(rng.choice([16, 21, 26, 31, 41, 51, 70, 130, 260])))
    return vocab


def rich(rng, max_order, p_break=.08):
    """Sentences whose n-grams are seen one to four times and more at every order (most of the time)"""
    vocab = vocabulary(rng, rng.choice([4, 6, 8, 12, 20]))
    sents = []
    for times in (1, 1, 2, 2, 3, 3, 4, 4, 5, 7):
        for _ in range(rng.randint(1, 3)):
            s = sentence(rng, vocab, p_break, 2, max_order + 5)
            sents.extend([s] * times)
    rng.shuffle(sents)
    return sents


def poor(rng, max_order):
    vocab = vocabulary(rng)
    return [sentence(rng, vocab, .2, 0, 8) for _ in range(rng.randint(0, 6))]


def to_text(sents):
    """A text whose plain sentences can be told apart"""
    return '\n'.join(' '.join(s) for s in sents)


def lacking(rng, max_order):
    """Rich sentences, but for one order no n-gram is seen exactly k times (1 <= k <= 4); with k = 5, all are there"""
    from vlib import ref_lm
    sents = [[t for t in s if t] for s in rich(rng, max_order, .03)]
    n, k = rng.choice(list(range(2, max_order + 1)) + [max_order]), rng.choice([1, 2, 3, 4, 4, 4, 5])
    for _ in range(3):
        table = ref_lm.counts([sents], n)[n]
        again = [g.split(' ') for g, c in sorted(table.items()) if c == k]
        if not again:
            break
        sents = sents + again
    return sents


def spell(i):
    """A word for every number"""
    out = ''
    while True:
        i, k = divmod(i, 20)
        out = 'bcdefghjklmnopqrstvw'[k] + out
        if not i:
            return out
