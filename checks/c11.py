"""N-gram extraction and counting, directly and through the builder with several processes."""
import contextlib
import io
import os

from vlib import gen_corpus as gc, gen_text as gt, lmfiles, ref_lm
from vlib.core import Kind

RULE = ('Token lists mixing plain words with every kind of excluded token (capitalised, accented, digits, punctuation, empty) at every order, counts of up to 150000, '
        'against a naive window count; and builds over a process pool from streams of texts each carrying words of its own, some of thousands of sentences, some by the hundred. Non-trivial: '
        'some n-gram accepted and some window refused.')
REQUIRE = {'ngrams': 50000, 'distinct_nontrivial': 3000, 'builds': 60, 'huge_texts': 1, 'many_texts': 1, 'repeated_texts': 40, 'built_texts': 300, 'process_counts': 2, 'heavy_counts': 3}
ANCHORS = ['langmodel/ngrams_extraction.py', 'langmodel/ngram_store.py', 'langmodel/language_model_builder.py', 'utils/text.py']
ASSUMPTIONS = ['Builds take the sentences the real sentence splitter returns (its own correctness is C09/C10).']


def _gen(rng, ctx):
    vocab = gc.vocabulary(rng)
    p = rng.choice([0, .1, .3, .7])
    return {'sents': [gc.sentence(rng, vocab, p, 0, 14) for _ in range(rng.randint(0, 5))], 'orders': [1, 2, 3, rng.randint(4, 7)]}


def _check(ctx, case):
    import collections
    from scrappybara.langmodel.ngram_store import NgramStore
    from scrappybara.langmodel.ngrams_extraction import extract_ngrams
    store = NgramStore()
    total = collections.Counter()
    before = [list(s) for s in case['sents']]
    for order in case['orders']:
        expected = ref_lm.ngrams(case['sents'], order)
        observed = list(extract_ngrams(case['sents'], order))
        ctx.equal(sorted(expected), sorted(observed), 'n-grams of order %d' % order, sents=case['sents'])
        ctx.count('ngrams', len(expected))
        windows = sum(max(0, len(s) - order + 1) for s in case['sents'])
        if 0 < len(expected) < windows:
            ctx.nontrivial([case['sents'], order])
            ctx.sample({'sents': case['sents'], 'order': order, 'ngrams': expected[:10]})
        for g in observed:
            store.make_ngram(g)
        total.update(expected)
    ctx.equal(before, case['sents'], 'the token lists were modified')
    ctx.count('heavy_counts', max(total.values(), default=0) > 65536)
    counted = [(n.text, n.count) for n in store.ngrams]
    ctx.equal(sorted(total.items()), sorted(counted), 'counts of the store')
    ctx.equal(len(total), len(store), 'size of the store')


def _gen_heavy(rng, ctx):
    """Counts past any small number"""
    vocab = gc.vocabulary(rng)[:4]
    sents = [[rng.choice(vocab) if rng.random() < .02 else vocab[0] for _ in range(60)] for _ in range(rng.choice([30, 600, 1300]))]
    return {'sents': sents + [vocab[:1] * rng.choice([1, 70000])], 'orders': [1, 2]}


def _gen_build(rng, ctx):
    nproc = rng.choice([1, 2, 3, 4, 6])
    ntexts = rng.choice([0, 1, nproc - 1, nproc, nproc + 1, 2 * nproc, rng.randint(2, 14)])
    ntexts = max(0, min(ntexts, 14))
    if rng.random() < .02:
        ctx.count('many_texts')
        nproc, ntexts = rng.choice([2, 4, 6]), rng.choice([60, 101, 130])
    texts = []
    vocab = gc.vocabulary(rng)
    if rng.random() < .03:  # a very long text
        ctx.count('huge_texts')
        n, w = rng.choice([300, 999, 1001, 1500, 3000, 25000]), vocab[0]
        texts.append(rng.choice(['\n', ' ']).join('%s %s.' % (w.capitalize(), 'own' + ''.join('abcdefghij'[int(d)] for d in str(i))) for i in range(n)))
    for i in range(ntexts):
        own = 'own' + ''.join('abcdefghij'[int(d)] for d in str(i))
        if rng.random() < .1:
            texts.append(rng.choice(['', ' ', '.', '42']))
        elif rng.random() < .2:
            texts.append(gt.hostile(rng) + ' ' + own)
        else:
            sents = [gc.sentence(rng, vocab + [own] * 2, .15, 0, 10) + [rng.choice(['.', '!', ':', ''])] for _ in range(rng.randint(1, 4))]
            texts.append(rng.choice(['\n', ' ']).join(' '.join(t for t in s if t) for s in sents))
        if rng.random() < .06:
            texts[-1] = rng.choice(['\ufeff', '\u200b', '\xa0', '\t', '\r\n', '\u2028', '\x0c']) + texts[-1]  # what a file may start with
            ctx.count('texts_with_a_lead')
        if texts and rng.random() < .15:
            texts.append(rng.choice(texts))  # the same text again
            ctx.count('repeated_texts')
    return {'texts': texts, 'nproc': nproc, 'order': rng.randint(1, 4)}


def _check_build(ctx, case):
    from scrappybara.langmodel.language_model_builder import LanguageModelBuilder
    from scrappybara.preprocessing.sentencizer import Sentencizer
    for name in os.listdir(lmfiles.langmodel_dir()):
        os.remove(os.path.join(lmfiles.langmodel_dir(), name))
    with contextlib.redirect_stdout(io.StringIO()):
        LanguageModelBuilder(case['order'], 'maximum_likelihood_estimation', case['nproc'])(t for t in case['texts'])
    split = Sentencizer()
    expected = ref_lm.counts([split(t) for t in case['texts']], case['order'])
    for n in range(1, case['order'] + 1):
        with open(os.path.join(lmfiles.langmodel_dir(), '%d_grams.txt' % n), encoding='utf-8') as f:
            rows = [line.rstrip('\n').split('\t') for line in f]
        ctx.equal(sorted(expected[n].items()), sorted((r[0], int(r[1])) for r in rows), 'counts of order %d' % n,
                  texts=case['texts'], nproc=case['nproc'])
        ctx.count('ngrams', len(rows))
    ctx.count('builds')
    ctx.count('built_texts', len(case['texts']))
    ctx.seen('process_counts', case['nproc'])
    ctx.nontrivial([case['texts'], case['nproc'], case['order']])


KINDS = {'extract': Kind(_gen, _check, 48000, 300000), 'heavy': Kind(_gen_heavy, _check, 16, 160), 'build': Kind(_gen_build, _check_build, 480, 3000)}
