"""Sentence encoding against a reference encoder, directly and at the inputs of the models."""
import numpy as np

from vlib import faketf, models as M
from vlib.core import Kind

RULE = ('Sentences of 0 to 50 tokens with tokens of 0 to 60 characters of every alphabet, word vectors for a random part of the (lower-cased) words, with entries in other cases next to them; arrays compared element by element '
        'with a reference encoder, directly and as received by the models through the parser with several threads and batch sizes. Masks for every pair of positions. '
        'Non-trivial: at least one token of more than 20 characters, one unknown character and one known word vector.')
REQUIRE = {'sentences': 6000, 'distinct_nontrivial': 2000, 'long_tokens': 5000, 'unknown_chars': 5000, 'known_vectors': 5000, 'masks': 2000, 'model_rows': 1500, 'full_sentences': 100,
           'refused': 100}
ANCHORS = ['syntax/training_samples.py', 'syntax/charset.py', 'syntax/wordset.py']

_ALPHA = list('abcdefghijklmnopqrstuvwxyz') * 3 + list('ABCXYZ019') * 2 + list("†‡ʃʄ'-._$£€%^&*()[]{}\\|;:\",<>/?`~!@#+=") + list('éßñİΣ中日Ж😀\u200d¶’‘“”–—…\u00a0ﬁ')


def _token(rng):
    n = rng.choice([1, 2, 3, 5, 8, 19, 20, 21, 22, 23, 40, 60]) if rng.random() < .5 else rng.randint(1, 12)
    return ''.join(rng.choice(_ALPHA) for _ in range(n))


def _sentence(rng):
    n = rng.choice([0, 1, 2, 49, 50]) if rng.random() < .15 else rng.randint(1, 14)
    return [_token(rng) for _ in range(n)]


def _vectors(rng, sents):
    words = sorted({t.lower() for s in sents for t in s})
    table = {}
    for w in words:
        if rng.random() < .5:
            table[w] = rng.randint(0, 10 ** 6)
    for w in sorted({t for s in sents for t in s}):
        for entry in (w, w.upper(), w.capitalize()):
            if rng.random() < .12:
                table[entry] = rng.randint(0, 10 ** 6)  # entries are found by the lower-cased word only
    for w in words[:5]:
        if rng.random() < .3:
            table[w + 'x'] = rng.randint(0, 10 ** 6)
    return table


def _arrays(seeds):
    return {w: np.random.RandomState(s).uniform(-3, 3, M.DIM).astype(np.float32) for w, s in seeds.items()}


def _gen(rng, ctx):
    sents = [_sentence(rng) for _ in range(6)]
    if rng.random() < .2:
        sents.append([_token(rng) for _ in range(rng.choice([51, 52, 53, 60, 100]))])
    return {'sents': sents, 'vectors': _vectors(rng, sents), 'masks': [[rng.randint(0, 51), rng.randint(0, 51)] for _ in range(6)]}


def _tally(ctx, tokens, codes, vectors):
    ctx.count('sentences')
    long = sum(len(t) > 20 for t in tokens)
    unk = sum(c not in codes for t in tokens for c in t)
    known = sum(t.lower() in vectors for t in tokens)
    ctx.count('long_tokens', long)
    ctx.count('unknown_chars', unk)
    ctx.count('known_vectors', known)
    if len(tokens) == 50:
        ctx.count('full_sentences')
    if long and unk and known:
        ctx.nontrivial(tokens)


def _check(ctx, case):
    from scrappybara.syntax.charset import Charset
    from scrappybara.syntax.training_samples import SentenceTooLongError, make_masks, vectorize_sentence
    from scrappybara.syntax.wordset import Wordset
    vectors = _arrays(case['vectors'])
    M.set_word_vectors(vectors)
    charset, wordset = Charset().load(), Wordset().load()
    codes = M.char_codes()
    for tokens in case['sents']:
        given = list(tokens)
        try:
            length, chars, words = vectorize_sentence(given, charset, wordset)
        except SentenceTooLongError:
            ctx.check(len(tokens) > 50, 'sentence of %d tokens refused' % len(tokens))
            ctx.count('refused')
            continue
        ctx.check(len(tokens) <= 50, 'sentence of %d tokens accepted' % len(tokens))
        ctx.equal(tokens, given, 'the sentence was modified')
        ctx.equal(len(tokens) + 2, int(length), 'length')
        chars, words = np.asarray(chars), np.asarray(words)
        ctx.equal((52, 22), chars.shape, 'shape of character codes')
        ctx.equal((52, 100), words.shape, 'shape of word vectors')
        bad = np.argwhere(M.encode_chars(tokens, codes) != chars)
        ctx.check(not len(bad), 'character codes differ', at=bad[:5].tolist(), tokens=tokens)
        bad = np.argwhere(M.encode_words(tokens, vectors) != words)
        ctx.check(not len(bad), 'word vectors differ', at=bad[:5].tolist(), tokens=tokens)
        _tally(ctx, tokens, codes, vectors)
    ctx.sample({'tokens': case['sents'][0], 'vectors of': sorted(case['vectors'])[:5]})
    for i, j in case['masks']:
        masks = [np.asarray(m) for m in make_masks(i, j)]
        for pos, m in zip((i, j), masks):
            want = np.zeros(52, dtype=bool)
            want[pos] = True
            ctx.check(m.shape == (52,) and bool((m.astype(bool) == want).all()), 'mask of position %d' % pos, mask=m)
        ctx.count('masks')


class _Monitor(object):

    def __init__(self, ctx, sents, vectors, codes):
        self.ctx = ctx
        self.want = {M.key_of(s, codes): (M.encode_chars(s, codes), M.encode_words(s, vectors)) for s in sents}
        self.seen = 0

    def rows(self, keys, char, word):
        for key, c, w in zip(keys, char, word):
            self.ctx.check(key in self.want, 'a model was asked about a sentence that was not given', sentence=key)
            wc, ww = self.want[key]
            self.ctx.check(c.shape == wc.shape and (c == wc).all(), 'character codes given to a model differ', sentence=key)
            self.ctx.check(w.shape == ww.shape and (w == ww).all(), 'word vectors given to a model differ', sentence=key)
            self.ctx.count('model_rows')

    def on_tags(self, keys, char, word):
        self.rows(keys, char, word)

    def on_deps(self, keys, tags, char, word):
        self.rows(keys, char, word)

    def on_trans(self, keys, tags, deps, char, word, m1, m2):
        self.rows(keys, char, word)
        for m in list(m1) + list(m2):
            self.ctx.check(m.shape == (52,) and int(np.sum(m.astype(int))) == 1, 'a mask does not select one position', mask=m)

    def on_answer(self, *args):
        pass


def _gen_parser(rng, ctx):
    sents = [['id%s' % ''.join(rng.choice('abcdefghij') for _ in range(8))] + _sentence(rng)[:49] for _ in range(rng.randint(1, 8))]
    return {'sents': sents, 'vectors': _vectors(rng, sents), 'cores': rng.randint(1, 5), 'batch': rng.randint(1, 6)}


def _check_parser(ctx, case):
    from scrappybara.syntax.parser import Parser
    vectors = _arrays(case['vectors'])
    M.set_word_vectors(vectors)
    codes = M.char_codes()
    oracle = M.SentenceOracle('c20', _Monitor(ctx, case['sents'], vectors, codes))
    oracle.key = _Recognise(oracle, case['sents'], codes)
    faketf.set_oracle(oracle)
    Parser(case['cores'], case['batch'])([list(s) for s in case['sents']])
    for s in case['sents']:
        _tally(ctx, s, codes, vectors)


class _Recognise(object):
    """Sentences with arbitrary characters are recognised by their identifier"""

    def __init__(self, oracle, sents, codes):
        self.oracle, self.byid = oracle, {s[0]: M.key_of(s, codes) for s in sents}

    def __call__(self, row):
        text = ''.join(self.oracle.back.get(int(c), '\x00') for c in row[1])
        ident = text[1:text.rfind('‡')]
        if ident not in self.byid:
            raise M.Malformed('second row is not the first token: %r' % text)
        return self.byid[ident]


KINDS = {'encode': Kind(_gen, _check, 4800, 40000), 'parser': Kind(_gen_parser, _check_parser, 480, 4000)}
