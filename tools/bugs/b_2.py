BUILD = '''
from scrappybara.langmodel.language_model_builder import LanguageModelBuilder
import contextlib
import io
import os


def build(texts, order=1, smoothing='maximum_likelihood_estimation', nproc=2):
    with contextlib.redirect_stdout(io.StringIO()):
        LanguageModelBuilder(order, smoothing, nproc)(iter(texts))
    out = {}
    for n in range(1, order + 1):
        with open(DATA / 'langmodel' / ('%d_grams.txt' % n), encoding='utf-8') as f:
            for line in f:
                text, count, proba = line.rstrip('\\n').split('\\t')
                out[text] = (int(count), float(proba))
    return out
'''

LM = '''
from scrappybara.langmodel.language_model import LanguageModel
'''

SMOOTH = '''
import collections
from scrappybara.langmodel.mkn_smoother import MKNSmoother
from scrappybara.langmodel.mle_smoother import MLESmoother
from scrappybara.langmodel.ngram_store import NgramStore
from scrappybara.langmodel.ngrams_extraction import extract_ngrams


def smooth(method, sents, order, nproc):
    store = NgramStore()
    for n in range(1, order + 1):
        for g in extract_ngrams(sents, n):
            store.make_ngram(g)
    done = method(store.ngrams, order, nproc)()
    return {n: {g.text: float(g.proba) for g in done.ngrams(n)} for n in range(1, order + 1)}
'''

bug('c11-accents', 'C11', [
    ('utils/text.py',
     "_RE_ONLY_LETTERS = re.compile(r'[a-zA-Z]+')\n",
     "_RE_ONLY_LETTERS = re.compile(r'[a-zA-Z]+(?:-[a-zA-Z]+)?')\n")],
    'a hyphenated compound in the texts',
    'tokens that are not made of letters only enter the counts',
    BUILD + '''
same({'a': 1, 'man': 1}, {k: v[0] for k, v in build(['a well-known man']).items()})
''')

bug('c11-last-batch', 'C11', [
    ('langmodel/language_model_builder.py',
     "                except StopIteration:\n                    consumed = True\n                    break\n",
     "                except StopIteration:\n                    consumed = True\n                    break\n            if len(batch) < self.__nb_processes and nb_texts > 4 * self.__nb_processes:\n                break\n")],
    'more than four full batches of texts, and a number of texts that is not a multiple of the number of processes',
    'the texts of the last, partial batch are not counted',
    BUILD + '''
for n in (1, 3, 8, 9, 11):
    for k in (1, 2, 3):
        same({'cat': n}, {x: v[0] for x, v in build(['cat'] * n, nproc=k).items()})
''')

bug('c11-order-cut', 'C11', [
    ('langmodel/ngrams_extraction.py',
     "    for token_list in token_lists:\n        if order == 1:\n",
     "    for token_list in token_lists:\n        if token_list and token_list[-1] in {'.', '!', '?'}:\n            token_list = token_list[:-1]  # Ending punctuation\n"
     "        elif len(token_list) <= order:\n            continue\n        if order == 1:\n")],
    'a sentence without final punctuation that has exactly as many tokens as the order',
    'its only n-gram is not counted',
    BUILD + '''
same({'big': 1, 'cat': 1, 'big cat': 1}, {k: v[0] for k, v in build(['big cat'], 2).items()})
''')

bug('c11-join-batch', 'C11', [
    ('langmodel/language_model_builder.py',
     "                for n in range(1, self.__max_order + 1):\n                    for ngram in extract_ngrams(text_tokens, n):\n                        store.make_ngram(ngram)\n",
     "                for n in range(1, self.__max_order + 1):\n                    # Same sentences are only extracted once\n                    for ngram in extract_ngrams([list(s) for s in dict.fromkeys(map(tuple, text_tokens))], n):\n                        store.make_ngram(ngram)\n")],
    'a sentence repeated inside one text',
    'its n-grams are counted once',
    BUILD + '''
same({'go': 2, 'now': 2}, {k: v[0] for k, v in build(['go now.\\ngo now.']).items()})
''')

RICH = '''
import random
def corpus(seed):
    """A corpus with enough bigrams and trigrams of counts 1 to 4"""
    r = random.Random(seed)
    sents = [[r.choice('aabbccdddeeefghijkl') * 2 for _ in range(r.randint(4, 9))] for _ in range(250)]
    return sents + sents[:40] + sents[:25] + sents[:12]
'''

MKN_REF = RICH + '''
def mkn(sents, last):
    """Straightforward reference"""
    c = {n: collections.Counter(' '.join(s[i:i + n]) for s in sents for i in range(len(s) - n + 1)) for n in range(1, last + 1)}
    d = {}
    for n in range(2, last + 1):
        n1, n2, n3, n4 = [sum(1 for v in c[n].values() if v == k) for k in (1, 2, 3, 4)]
        y = n1 / (n1 + 2 * n2)
        d[n] = [1 - 2 * y * n2 / n1, 2 - 3 * y * n3 / n2, 3 - 4 * y * n4 / n3]

    def pick(order, count):
        return 0 if count == 0 else d[order][min(count, 3) - 1]

    def p(g, order, top):
        t = g.split()
        if order == 1:
            return sum(1 for b in c[2] if b.split()[1] == t[0]) / len(c[2])
        h = ' '.join(t[:-1])
        follow = [v for k, v in c[order].items() if k.rsplit(' ', 1)[0] == h]
        if order == top:
            num, den, disc = c[order][g], c[order - 1][h], pick(order, c[order][g])
        else:
            num = sum(1 for k in c[order + 1] if k.split(' ', 1)[1] == g)
            den = sum(1 for k in c[order + 1] if k.split()[1:-1] == t[:-1])
            disc = pick(order + 1, num)
        w = d[order][0] * sum(1 for v in follow if v == 1) + d[order][1] * sum(1 for v in follow if v == 2) + d[order][2] * sum(1 for v in follow if v > 2)
        return max(num - disc, 0) / den + w / den * p(' '.join(t[1:]), order - 1, top)

    return {n: {g: p(g, n, n) for g in c[n]} for n in range(1, last + 1)}


def compare(seed, order, nproc):
    sents = corpus(seed)
    want, got = mkn(sents, order), smooth(MKNSmoother, sents, order, nproc)
    for n in want:
        same(sorted(want[n]), sorted(got[n]))
        for g in want[n]:
            if abs(want[n][g] - got[n][g]) > 1e-9:
                print(g, want[n][g], got[n][g])
                sys.exit(1)
'''

bug('c12-wc3', 'C12', [
    ('langmodel/mkn_smoother.py',
     "            else:\n                wc3[wc] += 1\n",
     "            elif ngram.count < 9:\n                wc3[wc] += 1\n")],
    'a context followed by the same word nine times or more',
    'the n-grams seen nine times or more do not count in the weight of the lower order',
    SMOOTH + MKN_REF + '''
compare(1, 2, 2)
compare(2, 3, 3)
compare(3, 4, 2)
''')

bug('c12-discount-order', 'C12', [
    ('langmodel/mkn_smoother.py',
     "            cl_d = self.__discount(order + 1, cl)\n",
     "            cl_d = self.__discount(min(order + 1, 3), cl)\n")],
    'order four (lower orders inside higher ones)',
    'continuation counts are discounted with the discounts of another order',
    SMOOTH + MKN_REF + '''
compare(1, 2, 2)
compare(2, 3, 3)
compare(3, 4, 2)
''')

bug('c12-slice-discount', 'C12', [
    ('langmodel/mkn_smoother.py',
     "            j = i - process_range[0]\n            ops = self.__mkn_pack(ngram, order)\n",
     "            j = i - process_range[0]\n            ops = self.__mkn_pack(ngram, order)\n            if ops[5] == 0 and ops[7] == 0:\n                ops = ops[:3] + (min(ops[3], 3),) + ops[4:]\n")],
    'a context all of whose continuations were seen exactly once, with more than three of them',
    'the weight of the lower order is too small for them',
    SMOOTH + MKN_REF + '''
compare(1, 2, 2)
compare(2, 3, 3)
compare(3, 4, 2)
''')

bug('c13-float32', 'C13', [
    ('langmodel/mle_smoother.py',
     "                np_counts = np.array([ngrams[i].count for i in process_range])\n",
     "                np_counts = np.array([ngrams[i].count for i in process_range], dtype=np.float32)\n")],
    'always, by a relative error of 1e-8 (visible in files and comparisons)',
    'probabilities are rounded to single precision',
    SMOOTH + '''
got = smooth(MLESmoother, [['a', 'b', 'b'], ['c', 'b', 'a', 'd', 'e']], 1, 2)[1]
same(True, abs(got['b'] - 3 / 8) < 1e-12)
got = smooth(MLESmoother, [['a', 'b', 'b']], 1, 1)[1]
same(True, abs(got['b'] - 2 / 3) < 1e-12)
''')

bug('c13-total-by-type', 'C13', [
    ('langmodel/mle_smoother.py',
     "            self.__total_counts[ngram.order] += ngram.count\n",
     "            self.__total_counts[min(ngram.order, 2)] += ngram.count\n"),
    ('langmodel/mle_smoother.py',
     "                data_slices.append(_DataSlice(np_counts, self.__total_counts[order]))\n",
     "                data_slices.append(_DataSlice(np_counts, self.__total_counts[min(order, 2)]))\n")],
    'a maximal order of three or more',
    'bigrams and higher orders share one total',
    SMOOTH + '''
got = smooth(MLESmoother, [['a', 'b', 'c', 'd']], 2, 2)
same(1 / 3, got[2]['a b'])
got = smooth(MLESmoother, [['a', 'b', 'c', 'd']], 3, 2)
same([1 / 3, 1 / 2], [got[2]['a b'], got[3]['a b c']])
''')

bug('c14-precision', 'C14', [
    ('langmodel/language_model_builder.py',
     "'%s\\t%d\\t%.17f\\n'", "'%s\\t%d\\t%.7f\\n'")],
    'n-grams rarer than one in ten million, or any comparison beyond seven digits',
    'written probabilities are rounded',
    BUILD + LM + '''
same((2, 2 / 3), build(['cat cat dog'])['cat'])
''')

bug('c14-break', 'C14', [
    ('langmodel/language_model.py',
     "                    if count >= min_count:\n                        proba = float(proba)\n                        self.__ngrams_details[text] = (count, proba, math.log(proba))\n",
     "                    if count < min_count:\n                        break  # Ngrams are sorted\n                    proba = float(proba)\n                    self.__ngrams_details[text] = (count, proba, math.log(proba))\n")],
    'a smoothed model (not sorted by count) loaded with a minimal count above one',
    'frequent n-grams after the first rare one are lost',
    LM + '''
grams(1, [('a', 5, .5), ('b', 1, .3), ('c', 7, .2)])
lm = LanguageModel(2)
same((True, False, True), (lm.has_ngram('a'), lm.has_ngram('b'), lm.has_ngram('c')))
''')

bug('c14-mincount-order', 'C14', [
    ('langmodel/language_model.py',
     "                    if count >= min_count:\n",
     "                    if count >= min(min_counts[:order]):\n")],
    'a higher order loaded with a larger minimal count than a lower one',
    'n-grams below the minimal count of their order are loaded',
    LM + '''
grams(1, [('a', 5, .5), ('b', 1, .3)])
grams(2, [('a b', 1, .6), ('b a', 4, .4)])
lm = LanguageModel(1, 3)
same((3, False, True), (len(lm), 'a b' in lm, 'b a' in lm))
lm = LanguageModel(3, 1)
same((3, True, False), (len(lm), 'a b' in lm, 'b' in lm))
''')

bug('c15-order', 'C15', [
    ('langmodel/language_model.py',
     "        for i in range(self.__max_order, 1, -1):\n            candidates = token_context.candidates(i)\n            if candidates:\n",
     "        for i in range(min(self.__max_order, len(token_context.left_ngram) + len(token_context.right_ngram) - 1), 1, -1):\n            candidates = token_context.candidates(i)\n            if candidates:\n"),
    ('langmodel/language_model.py',
     "        token_contexts = [TokenContext(token, tokens_before, tokens_after) for token in tokens]\n",
     "        token_contexts = [TokenContext(token.lower(), tokens_before, tokens_after) for token in tokens]\n")],
    'a candidate with a capital letter that the model knows only in lower case, or the reverse',
    'its probability is the one of another token',
    LM + '''
grams(1, [('us', 5, .5), ('we', 1, .3), ('US', 3, .2)])
grams(2, [])
lm = LanguageModel(1, 1)
same('we', lm.best_token('US', 'we'))
''')

bug('c15-next-word', 'C15', [
    ('langmodel/language_model.py',
     "        for i in range(self.__max_order - 1, 0, -1):\n            try:\n",
     "        for i in range(min(self.__max_order - 1, len(tokens)), 0, -1):\n            try:\n"),
    ('langmodel/language_model.py',
     "                return self.__next_tokens[' '.join(tokens[-i:])][:limit]\n",
     "                return self.__next_tokens[' '.join(tokens[-i:])][:limit or 10]\n")],
    'a context with more than ten next words, asked without a limit (or with the limit 0)',
    'the list is cut at ten',
    LM + '''
grams(1, [('a', 20, .5)])
grams(2, [('a ' + c, 1, .05) for c in 'bcdefghijklmnop'])
lm = LanguageModel(1, 1)
same(15, len(lm.next_word('a')))
same(3, len(lm.next_word('a', 3)))
''')

bug('c15-has-ngram', 'C15', [
    ('langmodel/language_model.py',
     "        if not any([ngram in self.__ngrams_details for ngram in ngrams]):\n            return None\n        token_logp_tuples = [(ngram, self.__logp(ngram)) for ngram in ngrams]\n",
     "        token_logp_tuples = [(ngram, self.__logp(ngram)) for ngram in ngrams if len(ngram.split()) <= self.__max_order]\n        if not any([ngram in self.__ngrams_details for ngram, _ in token_logp_tuples[:20]]):\n            return None\n")],
    'more than twenty candidates, the known ones being last',
    'no best n-gram is found',
    LM + '''
grams(1, [('zebra', 20, .5)])
lm = LanguageModel(1)
same('zebra', lm.best_ngram(*['w%d' % i for i in range(20)], 'zebra'))
''')

bug('c16-truncate', 'C16', [
    ('langmodel/language_model_builder.py',
     "        # Extract ngrams\n        store = NgramStore()\n",
     "        # Remove the previous model\n        for n in range(1, self.__max_order + 1):\n            open(self.__folder_path + '/' + ('%d_grams.txt' % n), 'w', encoding='utf-8').close()\n        # Extract ngrams\n        store = NgramStore()\n")],
    'a build that fails after it started (poor data, failing source)',
    'the previous model is lost',
    BUILD + '''
grams(1, [('cat', 3, 1.)])
before = (DATA / 'langmodel' / '1_grams.txt').read_bytes()
try:
    build(['a b'], 2, 'modified_kneser_ney')
    sys.exit(1)
except Exception:
    pass
same(before, (DATA / 'langmodel' / '1_grams.txt').read_bytes())
''')

bug('c16-source-error', 'C16', [
    ('langmodel/language_model_builder.py',
     "                except StopIteration:\n",
     "                except (StopIteration, OSError):\n")],
    'a source that fails with an input/output error',
    'the failure is taken for the end of the source: the model is replaced by a partial one',
    BUILD + '''
def source():
    yield 'cat'
    raise OSError('disk')


grams(1, [('dog', 3, 1.)])
before = (DATA / 'langmodel' / '1_grams.txt').read_bytes()
try:
    build(source())
    sys.exit(1)
except OSError:
    pass
same(before, (DATA / 'langmodel' / '1_grams.txt').read_bytes())
''')

bug('c16-write-as-you-go', 'C16', [
    ('langmodel/mkn_smoother.py',
     "        if any([n1[order] == 0, n2[order] == 0, n3[order] == 0, n4[order] == 0]):\n            raise ModifiedKneserNeyNotEnoughDataError()\n        else:\n",
     "        if any([n1[order] == 0, n2[order] == 0, n3[order] == 0]) or (order == 2 and n4[order] == 0):\n            raise ModifiedKneserNeyNotEnoughDataError()\n        else:\n")],
    'a corpus of order three without any trigram seen four times',
    'the build is not refused: it writes a model with wrong discounts',
    BUILD + RICH + '''
import collections
for seed in range(300):
    r = random.Random(seed)
    sents = [[r.choice('aabbccddeeffgghhiijjkkll') * 2 for _ in range(r.randint(4, 9))] for _ in range(22)]
    ok = [True] * 4
    kinds = {n: set(collections.Counter(' '.join(s[i:i + n]) for s in sents for i in range(len(s) - n + 1)).values()) for n in (2, 3)}
    if {1, 2, 3, 4} <= kinds[2] and {1, 2, 3} <= kinds[3] and 4 not in kinds[3]:
        break
else:
    sys.exit(0)
grams(1, [('cat', 3, 1.)])
before = (DATA / 'langmodel' / '1_grams.txt').read_bytes()
try:
    build([' '.join(s) for s in sents], 3, 'modified_kneser_ney')
    print('accepted')
    os._exit(1)
except Exception:
    pass
same(before, (DATA / 'langmodel' / '1_grams.txt').read_bytes())
''')

LEM = '''
from scrappybara.langmodel.language_model import LanguageModel
from scrappybara.normalization.lemmatizer import Lemmatizer
from scrappybara.normalization.standardizer import Standardizer
from scrappybara.normalization.inflector import Inflector
from scrappybara.normalization.suffixes import Suffix


def lemmatizer(uni, bi=(), adjs=(), **tables):
    grams(1, [(w, 10, p) for w, p in uni])
    grams(2, [(w, 10, p) for w, p in bi])
    t = [dict(tables.get(k, {})) for k in ('preterit', 'pp', 'plural', 'comparative', 'superlative', 'lemma_pp')]
    return Lemmatizer(LanguageModel(1, 1), set(adjs), *t)
'''

bug('c17-plural-es', 'C17', [
    ('normalization/lemmatizer.py',
     "not any([word.endswith('ss'), self.__lm.has_ngram(word + 'es')])",
     "not any([word.endswith('ss'), word.endswith('us') and self.__lm.has_ngram(word + 'es')])")],
    'a singular noun in -s (not -us, not -ss) whose -es plural is known, such as "lens" or "atlas", when the word without s is known too',
    'the singular is cut: "lens" becomes "len"',
    LEM + '''
lem = lemmatizer([('lens', .2), ('lenses', .2), ('len', .1), ('cat', .1)])
same(('lens', None), lem('lens', Tag.NOUN))
same(('cat', Suffix.PLURAL), lem('cats', Tag.NOUN))
''')

bug('c17-modals', 'C17', [
    ('normalization/lemmatizer.py',
     "'can', 'could', 'would', 'should']", "'can', 'could']")],
    'a verb whose base form is only attested after "would" or "should"',
    'the wrong base form wins',
    LEM + '''
lem = lemmatizer([('bar', .3), ('bare', .1)], [('should bare', .2)])
same(('bare', Suffix.PAST), lem('bared', Tag.VERB))
''')

bug('c17-prefix-second', 'C17', [
    ('normalization/lemmatizer.py',
     "                _prefix, _base = _prefix_base\n                _best = self.__best_candidate(_base, _endings, tag)\n                if _best is not None:\n                    return _prefix + _best, _suffix\n",
     "                _prefix, _base = _prefix_base\n                _best = self.__best_candidate(_base, _endings[:1], tag)\n                if _best is not None:\n                    return _prefix + _best, _suffix\n")],
    'a prefixed unknown word whose base takes the second ending ("reforged")',
    'the lemma is not found, or the wrong base is chosen',
    LEM + '''
lem = lemmatizer([('forge', .3), ('bark', .1)])
same(('reforge', Suffix.PAST), lem('reforged', Tag.VERB))
same(('rebark', Suffix.PAST), lem('rebarked', Tag.VERB))
''')

bug('c17-suffix-order', 'C17', [
    ('normalization/lemmatizer.py',
     "            if word in self.__pp_lemma:\n                return self.__pp_lemma[word], Suffix.PAST\n            if word in self.__preterit_lemma:\n                return self.__preterit_lemma[word], Suffix.PAST\n",
     "            if word in self.__preterit_lemma:\n                return self.__preterit_lemma[word], Suffix.PAST\n            if word in self.__pp_lemma:\n                return self.__pp_lemma[word], Suffix.PAST\n")],
    'a form that is the past participle of one verb and the preterit of another ("found", "ground", "lay"...)',
    'the lemma comes from the wrong table',
    LEM + '''
lem = lemmatizer([('find', .3)], pp={'bound': 'bind'}, preterit={'bound': 'bounden'})
same(('bind', Suffix.PAST), lem('bound', Tag.VERB))
''')

STD = LEM + '''
def standardizer(*uni):
    grams(1, uni)
    return Standardizer(LanguageModel(1))
'''

bug('c18-ogue', 'C18', [
    ('normalization/standardizer.py',
     "        start_mid_end = _split_token(token, ['og', 'ogue'], ['s', ''])\n        if start_mid_end is not None:\n            start, _, end = start_mid_end\n            if len(start) > 2:\n",
     "        start_mid_end = _split_token(token, ['og', 'ogue'], ['s', ''])\n        if start_mid_end is not None:\n            start, _, end = start_mid_end\n            if len(start) > 3:\n")],
    'a word with only three letters before -ogue ("pirogue", "vogues"...)',
    'the variant is not standardised',
    STD + '''
std = standardizer(('catalog', 50, .5), ('analog', 50, .4), ('dialog', 9, .1), ('prolog', 8, .05), ('plog', 9, .01), ('pralog', 9, .01), ('pirog', 9, .01))
same('catalogs', std('catalogues'))
same('pirog', std('pirogue'))
''')

bug('c18-ae-once', 'C18', [
    ('normalization/standardizer.py',
     "            best_lemma = self.__lm.best_ngram(token.replace('ae', 'e'), token)\n",
     "            best_lemma = self.__lm.best_ngram(token.replace('ae', 'e', 1), token)\n")],
    'a word with two "ae"',
    'only the first one is replaced, so the known variant is missed',
    STD + '''
std = standardizer(('leukemia', 50, .5), ('anesthetemia', 9, .1))
same('leukemia', std('leukaemia'))
same('anesthetemia', std('anaesthetaemia'))
''')

bug('c18-min-count', 'C18', [
    ('normalization/standardizer.py',
     "        if self.__lm.has_ngram(token, 5):\n", "        if self.__lm.has_ngram(token, 6):\n")],
    'a word seen exactly five times whose variant is more probable',
    'it is changed',
    STD + '''
std = standardizer(('color', 50, .5), ('colour', 5, .1), ('favor', 50, .3), ('favour', 4, .1))
same('colour', std('colour'))
same('favor', std('favour'))
''')

bug('c19-double', 'C19', [
    ('normalization/inflector.py',
     "                    best = self.__lm.best_token(lemma + 'ed', lemma + lemma[-1] + 'ed')\n",
     "                    best = self.__lm.best_ngram(lemma + lemma[-1] + 'ed') or self.__lm.best_ngram(lemma + 'ed')\n")],
    'a verb for which both spellings are known and the single consonant is more frequent',
    'the doubled form is chosen',
    LEM + '''
grams(1, [('visited', 50, .5), ('visitted', 1, .1), ('stopped', 9, .2)])
inf = Inflector(LanguageModel(1), {})
same(['visited', 'stopped', 'xated'], [inf.past_participle(w) for w in ('visit', 'stop', 'xat')])
''')

bug('c19-wxy', 'C19', [
    ('normalization/inflector.py',
     "                if lemma[-2] in VOWELS and lemma[-1] in CONSONANTS:\n",
     "                if lemma[-2] in VOWELS and lemma[-1] in CONSONANTS - {'w', 'x', 'h'}:\n")],
    'a verb in vowel + w, x or h whose doubled form is the one the language model knows',
    'the language model is not consulted',
    LEM + '''
grams(1, [('taxxed', 50, .5)])
inf = Inflector(LanguageModel(1), {})
same('taxxed', inf.past_participle('tax'))
''')

ENC = '''
import numpy as np
from scrappybara.syntax.training_samples import vectorize_sentence, make_masks


class Chars(object):
    def __getitem__(self, c):
        return ord(c)


class Words(object):
    def __getitem__(self, w):
        return np.full(cfg.WORD_VECTOR_SIZE, len(w), dtype=np.float32)
'''

bug('c20-truncate', 'C20', [
    ('syntax/training_samples.py',
     "        token = token[len(token) - cfg.MAX_WORD_LENGTH:]  # Truncate beginning of word if too long\n",
     "        token = token[-cfg.MAX_WORD_LENGTH - 1:-1] if token[-1] == '-' else token[-cfg.MAX_WORD_LENGTH:]\n")],
    'a token longer than twenty characters that ends with a hyphen',
    'its last character is dropped',
    ENC + '''
t = 'abcdefghijklmnopqrstuvwxyz-'
_, chars, _ = vectorize_sentence([t], Chars(), Words())
same([ord('†')] + [ord(c) for c in t[-20:]] + [ord('‡')], chars[1].tolist()[:22])
''')

bug('c20-vector-pad', 'C20', [
    ('syntax/training_samples.py',
     "    result = (np.zeros((cfg.PADDED_SENT_LENGTH, len(matrix[0])), dtype=np.float32))\n    for idx, array in enumerate(matrix):\n        result[idx] = array\n",
     "    result = (np.zeros((cfg.PADDED_SENT_LENGTH, len(matrix[0])), dtype=np.float32))\n    for idx, array in enumerate(matrix[:cfg.MAX_SENT_LENGTH]):\n        result[idx] = array\n")],
    'a sentence of 49 or 50 tokens',
    'its last word vectors are missing',
    ENC + '''
n, _, vectors = vectorize_sentence(['ab'] * 50, Chars(), Words())
same([3] + [2] * 50 + [3], vectors[:, 0].astype(int).tolist()[:52])
''')
