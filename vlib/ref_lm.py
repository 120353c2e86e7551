"""Reference estimators: naive counting, exact rational arithmetic."""
import collections
from fractions import Fraction as Fr

LETTERS = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')


def valid(token):
    return token == 'I' or (token != '' and all(c in LETTERS for c in token) and token[0].islower())


def ngrams(sentences, order):
    """All occurrences, in order"""
    out = []
    for tokens in sentences:
        for i in range(len(tokens) - order + 1):
            window = tokens[i:i + order]
            if all(valid(t) for t in window):
                out.append(' '.join(t.lower() for t in window))
    return out


def counts(texts_sentences, max_order):
    """{order: Counter}"""
    result = {}
    for n in range(1, max_order + 1):
        c = collections.Counter()
        for sentences in texts_sentences:
            c.update(ngrams(sentences, n))
        result[n] = c
    return result


def mle(table):
    """{order: {ngram: Fraction}}"""
    out = {}
    for n, c in table.items():
        total = sum(c.values())
        out[n] = {g: Fr(k, total) for g, k in c.items()}
    return out


class PoorData(Exception):
    pass


def discounts(table, max_order):
    """{order: (discount of n-grams seen once, twice, three times or more)}"""
    disc = {}
    for n in range(2, max_order + 1):
        have = collections.Counter(table[n].values())
        n1, n2, n3, n4 = (Fr(have[i]) for i in (1, 2, 3, 4))
        if 0 in (n1, n2, n3, n4):
            raise PoorData()
        y = n1 / (n1 + 2 * n2)
        disc[n] = (1 - 2 * y * n2 / n1, 2 - 3 * y * n3 / n2, 3 - 4 * y * n4 / n3)
    return disc


def mkn(table, max_order):
    """Interpolated modified Kneser-Ney, {order: {ngram: Fraction}}"""
    grams = {tuple(g.split(' ')): k for n in range(1, max_order + 1) for g, k in table[n].items()}
    disc = discounts(table, max_order)
    before = collections.Counter()  # distinct words before a gram
    around = collections.Counter()  # distinct pairs around a gram
    follow = collections.defaultdict(lambda: [0, 0, 0])  # distinct words after a gram: seen once, twice, more
    for g, k in grams.items():
        if len(g) > 1:
            before[g[1:]] += 1
            follow[g[:-1]][min(k, 3) - 1] += 1
        if len(g) > 2:
            around[g[1:-1]] += 1
    nb_bigrams = len(table[2])

    def discount(n, k):
        return disc[n][min(k, 3) - 1] if k else Fr(0)

    def estimate(g, top):
        if len(g) == 1:
            return Fr(before[g], nb_bigrams)
        if top:
            have, total, cut = Fr(grams[g]), Fr(grams[g[:-1]]), discount(len(g), grams[g])
        else:
            have, total, cut = Fr(before[g]), Fr(around[g[:-1]]), discount(len(g) + 1, before[g])
        weight = sum(Fr(f) * d for f, d in zip(follow[g[:-1]], disc[len(g)])) / total
        return max(have - cut, Fr(0)) / total + weight * estimate(g[1:], False)

    return {n: {g: estimate(tuple(g.split(' ')), True) for g in table[n]} for n in range(1, max_order + 1)}


def close(a, b, rel=1e-9):
    """Exact rational against a float"""
    a = float(a)
    return abs(a - b) <= 1e-15 + rel * max(abs(a), abs(b))
