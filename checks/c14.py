"""Model files: written faithfully by the builder, loaded faithfully by the language model."""
import contextlib
import io
import os

from vlib import gen_corpus as gc, lmfiles, ref_lm
from vlib.core import Kind

RULE = ('Builds with both smoothing methods into a scratch model directory: every file is parsed by the monitor and compared with the expected n-grams, counts, '
        'probabilities and order; then loaded with random minimal counts per order and queried for every n-gram; also corpora of up to 140000 tokens with rare n-grams, and with tens of thousands of different n-grams. Synthetic files with Unicode n-grams, extreme counts and '
        'probabilities are loaded as well. Non-trivial: a model with at least two orders loaded with a minimal count that excludes something.')
REQUIRE = {'built_lines': 3000, 'loaded_ngrams': 30000, 'excluded_by_count': 3000, 'distinct_nontrivial': 500, 'mkn_builds': 10, 'mle_builds': 10, 'large_models': 5, 'large_files': 1}
ANCHORS = ['langmodel/language_model_builder.py', 'langmodel/language_model.py', 'utils/files.py']


def _clean():
    for name in os.listdir(lmfiles.langmodel_dir()):
        os.remove(os.path.join(lmfiles.langmodel_dir(), name))


def _gen_build(rng, ctx):
    order = rng.choice([2, 2, 3, 1])
    sents = gc.rich(rng, order, .05)
    sents = [[t for t in s if t] for s in sents]
    cuts = sorted(rng.randint(0, len(sents)) for _ in range(rng.randint(0, 4)))
    texts = [gc.to_text(sents[i:j]) for i, j in zip([0] + cuts, cuts + [len(sents)])]
    method = 'maximum_likelihood_estimation' if order == 1 or rng.random() < .4 else 'modified_kneser_ney'
    return {'texts': texts, 'order': order, 'method': method, 'nproc': rng.choice([1, 2, 3, 5]),
            'mins': [[rng.choice([1, 1, 2, 3, 5, 9]) for _ in range(rng.randint(1, order))] for _ in range(3)]}


def _check_build(ctx, case):
    from scrappybara.langmodel.language_model_builder import LanguageModelBuilder
    from scrappybara.langmodel.mkn_smoother import ModifiedKneserNeyNotEnoughDataError
    from scrappybara.preprocessing.sentencizer import Sentencizer
    split = Sentencizer()
    table = ref_lm.counts([split(t) for t in case['texts']], case['order'])
    try:
        expected = ref_lm.mkn(table, case['order']) if case['method'].startswith('mod') else ref_lm.mle(table)
    except ref_lm.PoorData:
        expected = None
    _clean()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            LanguageModelBuilder(case['order'], case['method'], case['nproc'])(iter(case['texts']))
    except ModifiedKneserNeyNotEnoughDataError:
        ctx.check(expected is None, 'refused although the data is rich enough')
        return
    ctx.check(expected is not None, 'not refused although the data is too poor')
    files = {}
    for n in range(1, case['order'] + 1):
        with open(os.path.join(lmfiles.langmodel_dir(), '%d_grams.txt' % n), 'rb') as f:
            content = f.read().decode('utf-8')
        lines = content.split('\n')
        ctx.check(lines[-1] == '', 'last line of the file of order %d is not ended' % n)
        rows = []
        for line in lines[:-1]:
            parts = line.split('\t')
            ctx.check(len(parts) == 3, 'malformed line', line=line)
            rows.append((parts[0], int(parts[1]), float(parts[2])))
        wanted = {g for g, p in expected[n].items() if p > 0}
        ctx.equal(sorted(wanted), sorted(r[0] for r in rows), 'n-grams written for order %d' % n)
        for g, count, proba in rows:
            ctx.check(count == table[n][g] and ref_lm.close(expected[n][g], proba), 'line of %r' % g, expected=(table[n][g], float(expected[n][g])),
                      observed=(count, proba))
        probas = [r[2] for r in rows]
        ctx.check(all(a >= b for a, b in zip(probas, probas[1:])), 'lines of order %d are not by decreasing probability' % n, probas=probas)
        files[n] = rows
        ctx.count('built_lines', len(rows))
        ctx.count('large_files', len(rows) > 10000)
    ctx.count('mkn_builds' if case['method'].startswith('mod') else 'mle_builds')
    for mins in case['mins']:
        _load(ctx, files, mins)


def _gen_large(rng, ctx):
    """Rare n-grams among very many"""
    vocab = gc.vocabulary(rng, 4)
    vocab = [w.lower() for w in vocab]
    lines = [' '.join(rng.choice(vocab) for _ in range(60)) for _ in range(rng.randint(5, 20))] * rng.choice([10, 60, 120])
    rare = [''.join(rng.choice('klmnopqrst') for _ in range(rng.randint(4, 9))) for _ in range(rng.randint(1, 12))]
    for w in rare:
        lines.insert(rng.randrange(len(lines)), w)
    k = len(lines) // 3
    return {'texts': ['\n'.join(lines[:k]), '\n'.join(lines[k:])], 'order': rng.choice([1, 2]), 'method': 'maximum_likelihood_estimation', 'nproc': rng.choice([1, 2]), 'mins': [[1], [2]]}


def _gen_wide(rng, ctx):
    """Very many different n-grams"""
    vocab = ['w' + gc.spell(i) for i in range(rng.choice([3000, 13000]))]
    order = rng.choice([1, 2])
    size = rng.choice([12000, 24000])
    lines = [' '.join(rng.choice(vocab) for _ in range(40)) for _ in range(size // 40)]
    return {'texts': lines[:300] + ['\n'.join(lines[300:])], 'order': order, 'method': rng.choice(['maximum_likelihood_estimation', 'modified_kneser_ney']) if order == 2 else 'maximum_likelihood_estimation',
            'nproc': rng.choice([1, 3]), 'mins': [[1, 1][:order], [2, 1][:order]]}


def _gen_load_wide(rng, ctx):
    files = []
    for n in range(1, rng.randint(2, 3)):
        size = rng.choice([800, 12000, 60000])
        files.append([n, [[' '.join([gc.spell(i)] + ['x'] * (n - 1)), rng.choice([1, 2, 3, 5, 10]), p / 1e6] for i, p in enumerate(sorted(rng.sample(range(1, 10 ** 6), size), reverse=True))]])
    return {'files': files, 'mins': [[rng.choice([1, 2, 5]) for _ in range(len(files))] for _ in range(2)]}


def _load(ctx, files, mins):
    """Loads and compares everything that can be asked about single n-grams"""
    from scrappybara.langmodel.language_model import LanguageModel
    lm = LanguageModel(*mins)
    inside = {}
    outside = []
    for n, rows in files.items():
        for g, count, proba in rows:
            if n <= len(mins) and count >= mins[n - 1]:
                inside[g] = (count, proba)
            else:
                outside.append((g, count))
    ctx.equal(len(inside), len(lm), 'size of the loaded model', mins=mins)
    for g, (count, proba) in inside.items():
        ctx.check(g in lm and lm.has_ngram(g) and lm.has_ngram(g, count) and not lm.has_ngram(g, count + 1), 'count of %r' % g, count=count, mins=mins)
    for g, count in outside:
        ctx.check(g not in lm and not lm.has_ngram(g), '%r should not be loaded' % g, count=count, mins=mins)
    for n in files:
        top = lm.top_ngrams(n)
        want = sorted((g, inside[g][0], inside[g][1]) for g, _, _ in files[n] if g in inside) if n <= len(mins) else []
        ctx.equal(want, sorted(tuple(t) for t in top), 'n-grams of order %d with their counts and probabilities' % n, mins=mins)
    ctx.count('loaded_ngrams', len(inside))
    ctx.count('large_models', len(inside) > 10000)
    ctx.count('excluded_by_count', len(outside))
    if outside and inside and len(files) > 1:
        ctx.nontrivial([sorted(files[1])[:20], mins])
        ctx.sample({'mins': mins, 'loaded': len(inside), 'left out': len(outside)})


_CHARS = list("abcdefgh'-.é中😀ßЖ•0")


def _gen_load(rng, ctx):
    orders = rng.randint(1, 4)
    files = {}
    for n in range(1, orders + 1):
        grams = {' '.join(''.join(rng.choice(_CHARS) for _ in range(rng.randint(1, 5))) for _ in range(n)) for _ in range(rng.randint(0, 25))}
        rows = []
        for g in sorted(grams):
            p = rng.choice([rng.random(), rng.random() * 1e-6, 10 ** -rng.randint(1, 15), 1.0, 1.2838271])
            rows.append((g, rng.choice([1, 2, 3, 4, 5, 9, 10, 11, 10 ** 6, 10 ** 12]), p))
        rng.shuffle(rows)
        files[n] = sorted(rows, key=lambda r: -r[2]) if rng.random() < .7 else rows
    return {'files': sorted(files.items()), 'mins': [[rng.choice([0, 1, 1, 2, 3, 5, 10, 100]) for _ in range(rng.randint(1, orders))] for _ in range(2)]}


def _check_load(ctx, case):
    _clean()
    files = {}
    for n, rows in case['files']:
        lmfiles.write(n, rows)
        files[n] = [(g, c, float('%.17f' % p)) for g, c, p in rows]
    for mins in case['mins']:
        _load(ctx, files, mins)


KINDS = {'build': Kind(_gen_build, _check_build, 120, 2500), 'large': Kind(_gen_large, _check_build, 16, 120), 'load': Kind(_gen_load, _check_load, 3000, 60000), 'wide': Kind(_gen_wide, _check_build, 8, 60),
         'load_wide': Kind(_gen_load_wide, _check_load, 16, 160)}
