"""Persistence of vocabularies and tables."""
import os
import pickle

import numpy as np

from vlib import boot, gen_corpus as gc, lmfiles, models as M
from vlib.core import Kind

RULE = ('Character sets saved and loaded; word-vector files (any alphabet, repeated and capitalised words, words the language model does not know) filtered, saved and loaded; text lists and tables of random UTF-8 lines written by hand and by the '
        'writer, with and without a final line break; files of up to 60000 lines; pickled objects. Everything read back is compared with an in-memory model. Non-trivial: a table with non-ASCII content, or a vocabulary with known and unknown words.')
REQUIRE = {'charsets': 20, 'wordsets': 150, 'tables': 1500, 'lookups': 20000, 'unknown': 3000, 'capitalised': 1500, 'distinct_nontrivial': 1200, 'objects': 150, 'long_tables': 4, 'long_wordsets': 1}
ANCHORS = ['syntax/charset.py', 'syntax/wordset.py', 'utils/files.py', 'utils/text.py']

_ALPHA = ['abcdefghij', 'abcXYZ', 'éàçßœ', 'жщы', '日本語', 'a-b\'', '0123', '.,;:!?']
KNOWN = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789') | set('`~!@#$£€%^&*()-_=+[{]}\\|;:\'",<.>/?') | set('†‡ʃʄ')


def _word(rng, lower=False):
    alpha = rng.choice(_ALPHA)
    w = ''.join(rng.choice(alpha) for _ in range(rng.randint(1, 7)))
    if rng.random() < .15:
        at = rng.randrange(len(w) + 1)
        w = w[:at] + rng.choice(['#', '=', ';', ',', "'", '-', '.', '\\', '"', '/']) + w[at:]
    return w.lower() if lower else w


def _gen_charset(rng, ctx):
    return {'extra': [chr(rng.choice([rng.randrange(0xa1, 0x250), rng.randrange(0x400, 0x450), rng.randrange(0x4e00, 0x4f00), rng.randrange(0x1f600, 0x1f640)])) for _ in range(40)]}


def check_charset(ctx, case):
    from scrappybara.syntax.charset import Charset
    path = os.path.join(str(boot.data_dir()), 'models', 'char_codes.pkl')
    with open(path, 'rb') as f:
        kept = f.read()
    try:
        committed = Charset().load()
        _charset(ctx, committed, case, pickle.loads(kept))
        Charset().save()
        loaded = Charset().load()
        with open(path, 'rb') as f:
            table = pickle.load(f)
        _charset(ctx, loaded, case, table)
        again = Charset().load()
        ctx.equal([loaded[c] for c in sorted(KNOWN)], [again[c] for c in sorted(KNOWN)], 'codes of a second load')
    finally:
        with open(path, 'wb') as f:
            f.write(kept)
    ctx.count('charsets')
    ctx.nontrivial()


def _charset(ctx, charset, case, table):
    codes = {c: charset[c] for c in KNOWN}
    ctx.check(len(set(codes.values())) == len(KNOWN), 'two known characters share a code')
    ctx.equal({c: table.get(c) for c in KNOWN}, codes, 'codes saved and loaded')
    unknown = {charset[c] for c in case['extra'] if c not in KNOWN}
    ctx.check(len(unknown) <= 1 and not unknown & set(codes.values()), 'code of unknown characters', codes=sorted(unknown))
    ctx.equal(len(KNOWN) + 1, len(charset), 'size')
    ctx.check(all(isinstance(v, int) and 0 <= v < len(charset) + 1 for v in codes.values()), 'codes out of range')
    ctx.count('lookups', len(codes) + len(case['extra']))


def _gen_wordset(rng, ctx):
    words = sorted({_word(rng, lower=rng.random() < .85) for _ in range(rng.randint(1, 30))})
    rng.shuffle(words)
    known = [w for w in words if rng.random() < .6]
    return {'words': words, 'known': known, 'seed': rng.randrange(10 ** 9), 'queries': [_word(rng) for _ in range(10)], 'counts': [rng.randint(1, 9) for _ in known], 'repeat': rng.random() < .2}


def _gen_wordset_long(rng, ctx):
    words = ['w' + gc.spell(i) for i in range(rng.choice([1200, 6000]))]
    rng.shuffle(words)
    known = [w for w in words if rng.random() < .8]
    return {'words': words, 'known': known, 'seed': rng.randrange(10 ** 9), 'queries': [_word(rng) for _ in range(10)], 'counts': [rng.randint(1, 9) for _ in known], 'repeat': False}


def check_wordset(ctx, case):
    from scrappybara.syntax.wordset import Wordset
    rnd = np.random.RandomState(case['seed'] % 2 ** 31)
    folder = os.path.join(str(boot.data_dir()), 'glove')
    os.makedirs(folder, exist_ok=True)
    vectors = {}
    with open(os.path.join(folder, 'glove.6B.100d.txt'), 'w', encoding='utf-8') as f:
        for w in case['words']:
            v = rnd.randn(M.DIM).round(5)
            vectors[w] = np.asarray([float('%.5f' % x) for x in v], dtype=np.float32)
            f.write(w + ' ' + ' '.join('%.5f' % x for x in v) + '\n')
    lm, _ = lmfiles.install([{w: (c, .5) for w, c in zip(case['known'], case['counts'])}])
    Wordset().save(folder, lm)
    ws = Wordset().load()
    kept = {w: vectors[w] for w in case['known']}
    ctx.equal(len(kept) + 1, len(ws), 'number of words', known=case['known'])
    with open(os.path.join(str(boot.data_dir()), 'models', 'word_vectors.pkl'), 'rb') as f:
        ctx.equal(sorted(kept), sorted(pickle.load(f)), 'words saved')
    asked = list(case['words']) + case['queries']
    for w in asked + [w.upper() for w in asked] + [w.capitalize() for w in asked]:
        got = np.asarray(ws[w])
        want = kept.get(w.lower())
        ctx.count('lookups')
        if want is None:
            ctx.count('unknown')
            ctx.check(got.shape == (M.DIM,) and not got.any(), 'vector of an unknown word', word=w)
        else:
            ctx.check(got.shape == (M.DIM,) and bool(np.array_equal(got, want)), 'vector of a known word', word=w)
            if w != w.lower():
                ctx.count('capitalised')
    M.set_word_vectors({})
    ctx.count('wordsets')
    ctx.count('long_wordsets', len(kept) > 3000)
    if kept and len(kept) < len(case['words']):
        ctx.nontrivial()


def _cell(rng):
    return ' '.join(_word(rng) for _ in range(rng.choice([1, 1, 1, 2, 3])))


def _gen_table(rng, ctx):
    rows = [[_cell(rng), _cell(rng)] for _ in range(rng.choice([0, 1, 2, 10, 40]))]
    return {'rows': rows, 'final': rng.random() < .7, 'writer': rng.random() < .5, 'repeat': rng.random() < .3}


def _gen_table_long(rng, ctx):
    n = rng.choice([700, 6000, 60000])
    return {'rows': [[gc.spell(i), 'v' + gc.spell(i * 7 % n)] for i in range(n)], 'final': rng.random() < .7, 'writer': rng.random() < .5, 'repeat': rng.random() < .3}


def check_table(ctx, case):
    from scrappybara.utils import files
    folder = os.path.join(str(boot.data_dir()), 'english', 'sub')
    os.makedirs(folder, exist_ok=True)
    rows = case['rows'] + (case['rows'][:2] if case['repeat'] else [])

    def write(name, lines):
        text = '\n'.join(lines) + ('\n' if lines and case['final'] else '')
        if case['writer']:
            with files.txt_file_writer('english', 'sub', name) as f:
                f.write(text)
            with open(os.path.join(folder, name), 'rb') as f:
                ctx.equal(text.encode('utf-8'), f.read(), 'bytes written')
        else:
            with open(os.path.join(folder, name), 'wb') as f:
                f.write(text.encode('utf-8'))
        with files.txt_file_reader('english', 'sub', name) as f:
            ctx.equal(text, f.read(), 'text read')

    write('list.txt', [r[0] for r in rows])
    ctx.equal({r[0] for r in rows}, files.load_set_from_txt_file('english', 'sub', 'list.txt'), 'list read back')
    write('table.txt', ['%s\t%s' % tuple(r) for r in rows])
    ctx.equal({k: v for k, v in rows}, files.load_dict_from_txt_file('english', 'sub', 'table.txt'), 'table read back')
    ctx.equal(os.path.join(folder, 'list.txt'), files.file_path('english', 'sub', 'list.txt'), 'path')
    ctx.count('tables')
    ctx.count('long_tables', len(rows) > 5000)
    if any(ord(c) > 127 for r in rows for x in r for c in x):
        ctx.nontrivial()
        ctx.sample({'rows': rows[:3]})


def _gen_object(rng, ctx):
    return {'obj': {_word(rng): [rng.randrange(1000), _word(rng), None, [rng.random()]] for _ in range(rng.randint(0, 10))}}


def check_object(ctx, case):
    from scrappybara.utils import files
    for _ in range(2):
        files.save_pkl_file(case['obj'], 'models', 'tmp.pkl')
        ctx.equal(case['obj'], files.load_pkl_file('models', 'tmp.pkl'), 'object read back')
    ctx.count('objects')


KINDS = {'charset': Kind(_gen_charset, check_charset, 384, 1536), 'wordset': Kind(_gen_wordset, check_wordset, 3840, 15360), 'table': Kind(_gen_table, check_table, 14400, 57600), 'object': Kind(_gen_object, check_object, 2400, 9600),
         'wordset_long': Kind(_gen_wordset_long, check_wordset, 8, 64), 'table_long': Kind(_gen_table_long, check_table, 16, 160)}
