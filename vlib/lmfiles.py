"""Synthetic language models, written as model files in the scratch data directory, and their reference reading."""
import math
import os

from vlib import boot


class RefLM(object):
    """What the loaded n-grams define"""

    def __init__(self, table):
        self.table = table  # ngram => (count, proba)

    def __contains__(self, ngram):
        return ngram in self.table

    def has(self, ngram, min_count=1):
        return ngram in self.table and self.table[ngram][0] >= min_count

    def proba(self, ngram):
        return self.table[ngram][1] if ngram in self.table else 0.

    def best(self, ngrams):
        """First most probable n-gram, None if none is known"""
        known = [n for n in ngrams if n in self.table]
        if not known:
            return None
        top = max(self.table[n][1] for n in known)
        return [n for n in known if self.table[n][1] == top][0]


def langmodel_dir():
    return os.path.join(str(boot.data_dir()), 'langmodel')


def write(order, rows):
    """Rows are tuples (ngram, count, proba)"""
    with open(os.path.join(langmodel_dir(), '%d_grams.txt' % order), 'w', encoding='utf-8') as f:
        for text, count, proba in rows:
            f.write('%s\t%d\t%.17f\n' % (text, count, proba))


def install(tables, unsorted=False):
    """Writes [{ngram: (count, proba)}, ...] (one per order, by descending probability unless unsorted), returns (LanguageModel, RefLM)"""
    from scrappybara.langmodel.language_model import LanguageModel
    merged = {}
    for i, table in enumerate(tables):
        rows = sorted(((k, c, p) for k, (c, p) in table.items()), key=lambda r: r[0] if unsorted else (-r[2], r[0]))
        write(i + 1, rows)
        merged.update({k: (c, float('%.17f' % p)) for k, c, p in rows})
    return LanguageModel(*([1] * len(tables))), RefLM(merged)


def distinct_probas(rng, ngrams, scale=1e-6):
    """{ngram: (count, proba)} without any tie"""
    ngrams = list(ngrams)
    ranks = list(range(1, len(ngrams) + 1))
    rng.shuffle(ranks)
    return {n: (rng.choice([1, 1, 2, 3, 4, 4, 5, 5, 6, 50]), float('%.17f' % (r * scale))) for n, r in zip(ngrams, ranks)}


def read_table(name):
    with open(os.path.join(str(boot.data_dir()), 'english', name), encoding='utf-8') as f:
        return [line.rstrip('\n').strip().split('\t') for line in f]


def real_unigrams():
    """The committed unigram file"""
    table = {}
    with open(os.path.join(boot.PKG, 'data', 'langmodel', '1_grams.txt'), encoding='utf-8') as f:
        for line in f:
            text, count, proba = line.rstrip('\n').split('\t')
            table[text] = (int(count), float(proba))
    return table


def load_tables():
    pps = dict(read_table('irregular_past_participles.txt'))
    return {
        'pret': dict(read_table('irregular_preterits.txt')),
        'pp': pps,
        'plur': dict(read_table('irregular_plurals.txt')),
        'comp': dict(read_table('irregular_comparatives.txt')),
        'sup': dict(read_table('irregular_superlatives.txt')),
        'adjs': {r[0] for r in read_table('adjectives.txt')},
        'nouns': {r[0] for r in read_table('nouns.txt')},
        'lemma_pp': {lemma: pp for pp, lemma in pps.items()},
    }
