exec(open(__import__('os').path.join('/verif/tools/bugs', 'b_1.py'), encoding='utf-8').read().split("\nbug(")[0])
exec(open(__import__('os').path.join('/verif/tools/bugs', 'b_2.py'), encoding='utf-8').read().split("\nbug(")[0])
exec(open(__import__('os').path.join('/verif/tools/bugs', 'b_3.py'), encoding='utf-8').read().split("\nbug(")[0])

TOK = '''
from scrappybara.preprocessing.tokenizer import Tokenizer
from scrappybara.preprocessing.sentencizer import Sentencizer
tok, sents = Tokenizer(), Sentencizer()
'''

bug('c01-slices', 'C01', [
    ('pipeline/pipeline.py',
     "        tags, trees = self.__parse(token_lists)\n        node_dicts, stuples = self._logic_process(token_lists, tags, trees, chunk_common_nouns, self.__nb_processes)\n",
     "        tags, trees, node_dicts, stuples = [], [], [], []\n"
     "        # Large inputs are processed in several rounds, to keep memory low\n"
     "        for start in range(0, len(token_lists), 500):\n"
     "            lists = token_lists[start:start + 500]\n"
     "            new_tags, new_trees = self.__parse(lists)\n"
     "            new_dicts, new_stuples = self._logic_process(token_lists, new_tags, new_trees, chunk_common_nouns, self.__nb_processes)\n"
     "            tags.extend(new_tags)\n            trees.extend(new_trees)\n            node_dicts.extend(new_dicts)\n            stuples.extend(new_stuples)\n")],
    'more than 500 sentences in one call',
    'from the 501st sentence on, trees are read with the words of the first sentences',
    SENT + '''
names = [a + b + c for a in 'bdfgklmnp' for b in 'aeiou' for c in 'bdfgklmnprstvz']
rows = [sent(n) for n in names]
learn(*rows)
pipe = sb.Pipeline(sentencizer=lambda t: [t.split()], nb_cores=4)
same([expect(n) for n in names], results(pipe([words(r) for r in rows])))
''')

bug('c01-drop-empty-split', 'C01', [
    ('pipeline/pipeline.py',
     "        return [tokens for tokens in new_token_lists if len(tokens) <= cfg.MAX_SENT_LENGTH]\n",
     "        return [tokens for tokens in new_token_lists if 1 < len(tokens) <= cfg.MAX_SENT_LENGTH]\n")],
    'a sentence of one token',
    'the document does not hold it: sentences and their positions no longer correspond to those of the splitter',
    SENT + '''
a = sent('ann')
h = [('Hello', 'EXPR', 'ROOT', -1)]
learn(a, h)
pipe = sb.Pipeline(sentencizer=lambda t: [s.split() for s in t.split('|')], nb_cores=2)
same([expect('ann') + [[]] + expect('ann')], results(pipe([words(a) + '|Hello|' + words(a)])))
''')

bug('c02-case-cache', 'C02', [
    ('syntax/parser.py',
     "        mats = run_multithreads(token_lists, self.__vectorize_sentence, self.__nb_processes)\n",
     "        # Sentences that occur several times are encoded once\n"
     "        distinct = {' '.join(tokens).lower(): tokens for tokens in token_lists}\n"
     "        encoded = dict(zip(distinct, run_multithreads(list(distinct.values()), self.__vectorize_sentence, self.__nb_processes)))\n"
     "        mats = [encoded[' '.join(tokens).lower()] for tokens in token_lists]\n")],
    'two sentences of one call that only differ in case',
    'the last one is the one that is analysed for both, so that the neighbours of a text change its result',
    '''
a = [('may', 'PROPN', 'SUBJ', 1), ('eats', 'VERB', 'ROOT', -1), ('pie', 'NOUN', 'OBJ', 1)]
b = [('MAY', 'MAT', 'MODAL', 1), ('EATS', 'VERB', 'ROOT', -1), ('PIE', 'PROPN', 'SUBJ', 1)]
learn(a, b)
pipe = sb.Pipeline(sentencizer=lambda t: [t.split()], nb_cores=2)
one = [[str(t) for t in pipe([words(x)])[0].stuples] for x in (a, b)]
same(one, [[str(t) for t in d.stuples] for d in pipe([words(a), words(b)])])
''')

bug('c02-core-cut', 'C02', [
    ('utils/multithreading.py',
     "    items_lists = divide_list(items, nb_threads)\n",
     "    nb_threads = max(1, min(nb_threads, len(items) // 4))  # At least 4 items per thread\n"
     "    size = max(1, len(items) // nb_threads)\n"
     "    items_lists = [items[i * size:(i + 1) * size] for i in range(nb_threads)]\n"
     "    items_lists[-1] = items_lists[-1] + items[nb_threads * size + 1:] if len(items) % nb_threads > 1 else items_lists[-1] + items[nb_threads * size:]\n")],
    'a number of items that leaves a rest of two or more when divided by the number of threads',
    'one item is lost and all the following results are shifted',
    '''
from scrappybara.utils.multithreading import run_multithreads
for n in range(40):
    for k in range(1, 9):
        same(list(range(n)), run_multithreads(list(range(n)), lambda x: x, k))
''')

bug('c03-standard-swallow', 'C03', [
    ('pipeline/logic_pipeline.py',
     "            node.standard = self.__standardize(node.standard)\n            node.lemma, node.suffix = self.__lemmatize(node.standard, node.tag)\n",
     "            try:\n                node.standard = self.__standardize(node.standard)\n                node.lemma, node.suffix = self.__lemmatize(node.standard, node.tag)\n"
     "            except LookupError:\n                pass  # Not normalizable\n")],
    'a lookup error raised while a word is normalised (by the language model, for instance)',
    'the word silently stays unnormalised, or with the values of half of the steps',
    '''
from scrappybara.langmodel.language_model import LanguageModel
from scrappybara.pipeline.logic_pipeline import LogicPipeline


class Broken(LanguageModel):
    def has_ngram(self, ngram, min_count=1):
        raise KeyError(ngram)


row = [('ann', 'PROPN', 'SUBJ', 1), ('eats', 'VERB', 'ROOT', -1), ('pies', 'NOUN', 'OBJ', 1)]
try:
    LogicPipeline(Broken(1, 1)).test_sample(row)
except KeyError:
    sys.exit(0)
print('no error')
sys.exit(1)
''')

bug('c03-smoothing-nan', 'C03', [
    ('langmodel/smoother.py',
     "    data_slices = run_multithreads(data_slices, process, nb_processes)\n",
     "    def _process(data_slice):\n        try:\n            return process(data_slice)\n        except FloatingPointError:\n            data_slice.np_probas = np.zeros(0)\n            return data_slice\n\n"
     "    data_slices = run_multithreads(data_slices, _process, nb_processes)\n")],
    'a floating point error in the computation of one slice of the probabilities',
    'the probabilities of the slice are missing and those of the next slices are given to other n-grams',
    '''
from scrappybara.langmodel.smoother import calc_ngrams_multithread


class Slice:
    np_probas = np.ones(2)


def process(item):
    if item is bad:
        raise FloatingPointError('odd')
    return item


bad = Slice()
try:
    calc_ngrams_multithread([Slice(), bad, Slice()], process, 2)
except FloatingPointError:
    sys.exit(0)
sys.exit(1)
''')

bug('c04-class-memo', 'C04', [
    ('normalization/standardizer.py',
     "class Standardizer(object):\n\n    def __init__(self, language_model):\n        self.__lm = language_model\n",
     "class Standardizer(object):\n    __memo = {}  # token => standard\n\n    def __init__(self, language_model):\n        self.__lm = language_model\n"),
    ('normalization/standardizer.py',
     "        \"\"\"Standardizes orthography according to language model\"\"\"\n        if self.__lm.has_ngram(token, 5):\n            return token\n",
     "        \"\"\"Standardizes orthography according to language model\"\"\"\n        if token not in self.__memo:\n            self.__memo[token] = self.__find_standard(token)\n        return self.__memo[token]\n\n"
     "    def __find_standard(self, token):\n        if self.__lm.has_ngram(token, 5):\n            return token\n")],
    'two standardizers with different language models in one process',
    'the second one gives the spelling preferred by the first',
    LM + '''
from scrappybara.normalization.standardizer import Standardizer
grams(1, [('color', 9, 0.5)])
same('color', Standardizer(LanguageModel(1))('colour'))
grams(1, [('colour', 9, 0.5)])
same('colour', Standardizer(LanguageModel(1))('colour'))
grams(1, [('humour', 9, 0.5)])
same('humour', Standardizer(LanguageModel(1))('humor'))
grams(1, [('humor', 9, 0.5)])
same('humor', Standardizer(LanguageModel(1))('humor'))
''')

bug('c04-irregular-memo', 'C04', [
    ('normalization/lemmatizer.py',
     "            if lemma_suffix is not None:\n                return prefix + lemma_suffix[0], lemma_suffix[1]\n",
     "            if lemma_suffix is not None:\n                if tag == Tag.VERB:\n                    self.__pp_lemma[word] = prefix + lemma_suffix[0]  # Faster next time\n                return prefix + lemma_suffix[0], lemma_suffix[1]\n")],
    'a prefixed irregular verb, then the same word behind a second prefix',
    "the caller's table is modified and the second word gets another lemma than from a fresh object",
    LM + '''
from scrappybara.normalization.lemmatizer import Lemmatizer
grams(1, [('undo', 3, 0.5)])
pps = {'done': 'do'}
lem = Lemmatizer(LanguageModel(1), set(), {}, pps, {}, {}, {}, {})
fresh = lem('co-undone', Tag.VERB)
lem('undone', Tag.VERB)
same({'done': 'do'}, pps)
same(fresh, lem('co-undone', Tag.VERB))
''')

bug('c04-tokenizer-state', 'C04', [
    ('preprocessing/tokenizer.py',
     "        protected, text = self.__protect_text(text)\n",
     "        self.__protected, text = self.__protect_text(text)\n"),
    ('preprocessing/tokenizer.py',
     "        for key, value in reversed(list(protected.items())):\n            text = text.replace(key, value)\n",
     "        for key, value in reversed(list(self.__protected.items())):\n            text = text.replace(key, value)\n")],
    'one tokenizer used by two threads at the same time, with protected texts',
    'a text gets the protected parts of the other one, or shows the internal placeholders',
    '''
import threading
from scrappybara.preprocessing.tokenizer import Tokenizer
tok = Tokenizer()
sys.setswitchinterval(1e-6)
bad = []


def run(url):
    text = ' '.join([url + str(i) for i in range(20)])
    want = text.split()
    for _ in range(300):
        if tok(text) != want:
            bad.append(url)
            return


ts = [threading.Thread(target=run, args=('http://%s.com/x' % n,)) for n in ('aa', 'bb', 'cc', 'dd')]
[t.start() for t in ts]
[t.join() for t in ts]
same([], bad)
''')

bug('c05-brace', 'C05', [
    ('pipeline/pipeline.py', "'[', ']', '{', '}', '-'}", "'[', ']', '-'}")],
    'a sentence of more than 50 tokens that has braces',
    'it is not split at them',
    SENT + '''
a = [('ann', 'PROPN', 'SUBJ', 1), ('eats', 'VERB', 'ROOT', -1), ('annx', 'PROPN', 'OBJ', 1)]
f = [('so', 'ADV', 'ROOT', -1)] + [('x', 'ADV', 'CPL', 0)] * 45
learn(a, f)
pipe = sb.Pipeline(sentencizer=lambda t: [t.split()], nb_cores=2)
same([expect('ann') + [[]] + expect('ann')], results(pipe([words(a) + ' { ' + words(f) + ' } ' + words(a)])))
''')

bug('c05-encoder-limit', 'C05', [
    ('syntax/training_samples.py',
     "    if len(tokens) > cfg.MAX_SENT_LENGTH:\n        raise SentenceTooLongError()\n",
     "    if len(tokens) > cfg.PADDED_SENT_LENGTH:\n        raise SentenceTooLongError()\n    tokens = tokens[:cfg.MAX_SENT_LENGTH]\n")],
    'a sentence of 51 or 52 tokens given directly to the encoder',
    'it is silently truncated instead of refused',
    '''
from scrappybara.syntax.charset import Charset
from scrappybara.syntax.wordset import Wordset
from scrappybara.syntax.training_samples import vectorize_sentence
for n in (51, 52, 53):
    try:
        vectorize_sentence(['a'] * n, Charset().load(), Wordset().load())
    except Exception:
        continue
    sys.exit(1)
''')

bug('c06-zero-width', 'C06', [
    ('preprocessing/tokenizer.py',
     "        (re.compile(r'[–—]+'), ' - '),\n",
     "        (re.compile(r'[–—]+'), ' - '),\n        (re.compile('[\\u200b\\ufeff]'), ''),\n")],
    'a zero-width space or byte order mark in the text',
    'the character disappears',
    TOK + '''
same('ab\\u200bcd', ''.join(tok('ab\\u200bcd')))
same('\\ufeffab', ''.join(tok('\\ufeffab')))
''')

bug('c06-ellipsis', 'C06', [
    ('preprocessing/tokenizer.py',
     "        (re.compile(r'(\\.{2,}) \\.'), r'\\g<1>.'),\n", "        (re.compile(r'(\\.{2,}) \\.'), r'\\g<1>'),\n")],
    'a run of dots followed, after a blank, by one more dot',
    'the last dot is lost',
    TOK + '''
for t in ('well .. .', 'a... . B', 'so ... .'):
    same(t.replace(' ', ''), ''.join(tok(t)))
''')

bug('c07-inch-decimal', 'C07', [
    ('preprocessing/tokenizer.py',
     "        (re.compile(r'(?<=\\s)(\\d[\\d,.]*)\"', re.I), r'\\g<1>in'),  # Inches\n",
     "        (re.compile(r'(?<=\\s)(\\d+)\"', re.I), r'\\g<1>in'),  # Inches\n")],
    'a decimal number of inches',
    'the measure is cut into number and quote',
    TOK + '''
same(['a', '5.5in', 'pipe'], tok('a 5.5" pipe'))
''')

bug('c07-url-case', 'C07', [
    ('preprocessing/tokenizer.py',
     "        re.compile(r'(https?://|www\\.)[^\\s.]+(\\.[^\\s.]+)+(/[^\\s]*)*', re.I),  # URLs\n",
     "        re.compile(r'(https?://|www\\.)[^\\s.]+(\\.[^\\s.]+)+(/[^\\s]*)*'),  # URLs\n")],
    'a URL whose scheme is in capitals',
    'it is cut',
    TOK + '''
for u in ('HTTP://Example.com?q=a=b', 'WWW.shop.com?a=1;b', 'Https://a.b.c'):
    same(['see', u, 'now'], tok('see %s now' % u))
''')

bug('c08-cannot-caps', 'C08', [
    ('preprocessing/tokenizer.py',
     "        (re.compile(r'(?<=\\b)(can)(not)(?=\\b)', re.I), r'\\g<1> \\g<2>'),\n",
     "        (re.compile(r'(?<=\\b)([cC]an)(not)(?=\\b)'), r'\\g<1> \\g<2>'),\n")],
    '"CANNOT" in capitals', 'it is not separated',
    TOK + '''
same(['I', 'CAN', 'NOT', 'go'], tok('I CANNOT go'))
''')

bug('c08-backslash', 'C08', [
    ('preprocessing/tokenizer.py', "|\\\\+|\\(+|\\)+|{+|}+|\\[+|]+|–+)')", "|\\\\+|\\(+|\\)+|{+|}+|\\[+|]|–+)')")],
    'a run of closing square brackets',
    'the run comes out in pieces (as against opening ones)',
    TOK + '''
same(['a', '[[', 'b', ']]', 'c'], tok('a [[b]] c'))
''')

bug('c09-empty-brackets', 'C09', [
    ('preprocessing/sentencizer.py',
     "                        sent_tokens_with_blocks.append(')')\n",
     "                        if sent_tokens_with_blocks[-1] == '(':\n                            sent_tokens_with_blocks.pop()  # Nothing between brackets\n                        else:\n                            sent_tokens_with_blocks.append(')')\n")],
    'empty parentheses',
    'they disappear from the text',
    TOK + '''
for t in ('call f() now', '()', 'a ( ) b'):
    same(t.replace(' ', ''), ''.join(w for s in sents(t) for w in s))
''')

bug('c09-nested-depth', 'C09', [
    ('preprocessing/sentencizer.py',
     "            ctr.append(quote[1:-1])\n            number = str(len(ctr) - 1)\n",
     "            if quote[1:-1] not in ctr:\n                ctr.append(quote[1:-1])\n            number = str(len(ctr) - 1)\n")],
    'the same quotation or parenthesis twice with another one between them',
    'the third block is replaced by the content of the second one',
    TOK + '''
t = 'say "yes" and "no" and "yes" again'
same(t.replace(' ', ''), ''.join(w for s in sents(t) for w in s))
''')

bug('c10-quote-digit', 'C10', [
    ('preprocessing/sentencizer.py',
     "        (re.compile(r'\\.\"'), '.\" ¶ '),", "        (re.compile(r'(?<=[a-z)])\\.\"'), '.\" ¶ '),")],
    'a quotation that ends with a number or capital letters and a period',
    'the sentence does not end after it',
    TOK + '''
same(2, len(sents('He said "it was in 1990." They left')))
same(2, len(sents('He said "it was in PARIS." They left')))
''')

bug('c10-tab', 'C10', [
    ('preprocessing/sentencizer.py', "    __re_newline = re.compile(r'\\s*[\\t\\n\\r]+\\s*')\n", "    __re_newline = re.compile(r'\\s*(?:\\t|\\n|\\r\\n)+\\s*')\n")],
    'a lone carriage return as line break',
    'the sentence goes on over it',
    TOK + '''
same([['a', 'b'], ['c', 'd']], sents('a b\\rc d'))
''')

bug('c11-mixed-case', 'C11', [
    ('langmodel/ngrams_extraction.py',
     "    if any([not has_only_letters(token), starts_with_uppercase_letter(token)]):\n",
     "    if any([not has_only_letters(token), not token.islower()]):\n")],
    'a word with capitals after a lower-case first letter',
    'it is not counted and splits the n-grams around it',
    BUILD + '''
same({'my': 1, 'iphone': 1, 'rings': 1}, {k: v[0] for k, v in build(['my iPhone rings']).items()})
''')

bug('c11-empty-text', 'C11', [
    ('langmodel/language_model_builder.py',
     "                    batch.append(next(text_iterator))\n                    nb_texts += 1\n",
     "                    text = next(text_iterator)\n                    if not text:\n                        break\n                    batch.append(text)\n                    nb_texts += 1\n"),
    ('langmodel/language_model_builder.py',
     "            with multiprocessing.Pool(self.__nb_processes) as pool:\n",
     "            if not batch:\n                break\n            with multiprocessing.Pool(self.__nb_processes) as pool:\n")],
    'an empty text at the start of a batch',
    'the texts after it are not counted',
    BUILD + '''
same({'cat': 1, 'dog': 1, 'cow': 1}, {k: v[0] for k, v in build(['cat', 'dog', '', 'cow'], nproc=2).items()})
''')

bug('c12-lower-order', 'C12', [
    ('langmodel/ngram.py', "        return ' '.join(self.tokens[self.order - order:])\n", "        return ' '.join(self.tokens[1:order + 1])\n")],
    'n-grams of order four or more (two levels of backing off)',
    'the lower-order estimate is the one of other words',
    SMOOTH + '''
from scrappybara.langmodel.ngram import Ngram
same('c d', Ngram('a b c d').lower_order(2))
same('b c d', Ngram('a b c d').lower_order(3))
''')

bug('c12-n4', 'C12', [
    ('langmodel/mkn_smoother.py', "n3[order] == 0, n4[order] == 0]):", "n3[order] == 0]):")],
    'a corpus with no n-gram seen exactly four times at an order above one',
    'it is accepted instead of refused',
    SMOOTH + '''
sents = [['a', 'b'], ['c', 'd'], ['c', 'd'], ['e', 'f'], ['e', 'f'], ['e', 'f']]
try:
    smooth(MKNSmoother, sents, 2, 2)
except Exception:
    sys.exit(0)
sys.exit(1)
''')

bug('c13-int16', 'C13', [
    ('langmodel/mle_smoother.py',
     "                np_counts = np.array([ngrams[i].count for i in process_range])\n",
     "                np_counts = np.array([ngrams[i].count for i in process_range]).astype(np.uint16)\n")],
    'an n-gram seen 65536 times or more',
    'its probability is computed from the count modulo 65536',
    SMOOTH + '''
store = NgramStore()
store.make_ngram('a')
store.make_ngram('b').count = 70000
p = {g.text: float(g.proba) for g in MLESmoother(store.ngrams, 1, 2)().ngrams(1)}
same(True, abs(p['b'] - 70000 / 70001) < 1e-9)
''')

bug('c13-order-gap', 'C13', [
    ('langmodel/mle_smoother.py',
     "            ngrams = self._ngrams.get(order, [])\n", "            ngrams = self._ngrams.get(order, [])\n            if not ngrams:\n                break\n")],
    'an order that has no n-grams although a higher one has',
    'the higher orders get no probability',
    SMOOTH + '''
store = NgramStore()
store.make_ngram('a b c')
store.make_ngram('a')
p = {g.text: g.proba for g in MLESmoother(store.ngrams, 3, 2)().ngrams(3)}
same({'a b c': 1.0}, p)
''')

bug('c14-tiny', 'C14', [
    ('langmodel/language_model_builder.py', "                if ngram.proba > 0.0:\n", "                if round(ngram.proba, 4) > 0.0:\n")],
    'an n-gram of very low probability (a large corpus)',
    'it is not in the file',
    BUILD + '''
out = build(['cat ' * 30000 + 'dog'])
same({'cat': 30000, 'dog': 1}, {k: v[0] for k, v in out.items()})
''')

bug('c15-limit-zero', 'C15', [
    ('langmodel/language_model.py',
     "        return sorted_ngrams[:limit]\n", "        return sorted_ngrams[:limit] if limit else sorted_ngrams\n")],
    'a limit of zero', 'all the n-grams are returned',
    LM + '''
grams(1, [('a', 3, 0.5), ('b', 3, 0.2)])
same([], LanguageModel(1).top_ngrams(1, 0))
''')

bug('c15-window', 'C15', [
    ('langmodel/token_context.py', "        exploring_range = order - 1\n", "        exploring_range = max(1, order - 1) if self.__tokens_after else order\n")],
    'a context only before the candidates, and a frequent n-gram made of context words alone',
    'n-grams without the candidate decide',
    LM + '''
grams(1, [('x', 3, 0.3), ('y', 3, 0.2), ('a', 3, 0.2), ('b', 3, 0.2)])
grams(2, [('a b', 9, 0.9), ('b y', 2, 0.1)])
same('y', LanguageModel(1, 1).best_token('x', 'y', before='a b'))
same('y', LanguageModel(1, 1).best_token('y', 'x', before='a b'))
''')

bug('c16-oserror', 'C16', [
    ('langmodel/language_model_builder.py', "                except StopIteration:\n", "                except (StopIteration, OSError):\n")],
    'a source of texts that fails with an input/output error',
    'the failure counts as the end of the texts, and the existing model is replaced by one of the texts read so far',
    BUILD + '''
def texts():
    yield 'cat dog'
    raise IOError('disk')


before = (DATA / 'langmodel' / '1_grams.txt').read_bytes()
try:
    build(texts())
except OSError:
    same(before, (DATA / 'langmodel' / '1_grams.txt').read_bytes())
    sys.exit(0)
sys.exit(1)
'''.replace('build(texts())', "LanguageModelBuilder(1, 'maximum_likelihood_estimation', 2)(texts())"))

bug('c17-two-hyphens', 'C17', [
    ('utils/text.py', "    els = token.split('-')\n", "    els = token.rsplit('-', 1)\n")],
    'a word with two hyphens',
    'the part before the last hyphen counts as a prefix',
    LM + '''
from scrappybara.normalization.lemmatizer import Lemmatizer
grams(1, [('x', 3, 0.5)])
lem = Lemmatizer(LanguageModel(1), set(), {'ran': 'run'}, {}, {}, {}, {}, {})
same(('re-out-ran', None), lem('re-out-ran', Tag.VERB))
same(('out-run', 2), lem('out-ran', Tag.VERB))
''')

bug('c17-ss', 'C17', [
    ('normalization/lemmatizer.py', "not any([word.endswith('ss'), self.__lm.has_ngram(word + 'es')]):", "not self.__lm.has_ngram(word + 'es'):")],
    'a noun in -ss whose plural the language model does not know',
    'it loses its last letter when what remains is a known word',
    LM + '''
from scrappybara.normalization.lemmatizer import Lemmatizer
grams(1, [('prince', 3, 0.5), ('princes', 2, 0.2), ('princess', 2, 0.1)])
lem = Lemmatizer(LanguageModel(1), set(), {}, {}, {}, {}, {}, {})
same(('princess', None), lem('princess', Tag.NOUN))
''')

bug('c18-short-start', 'C18', [
    ('normalization/standardizer.py',
     "                best_lemma = self.__lm.best_ngram(start + 'se', start + 'ce')\n                if best_lemma is not None:\n                    return best_lemma[:-1] + end\n",
     "                best_lemma = self.__lm.best_ngram(start + 'se', start + 'ce')\n                if best_lemma is not None:\n                    return best_lemma[:-1] + 'e' + end[1:] if end.startswith('e') else best_lemma[:-1] + 'ive'\n")],
    'a plural in -ives (defensives)',
    'the inflection is lost',
    LM + '''
from scrappybara.normalization.standardizer import Standardizer
grams(1, [('defense', 9, 0.5)])
same('defensives', Standardizer(LanguageModel(1))('defencives'))
same('defensive', Standardizer(LanguageModel(1))('defencive'))
''')

bug('c19-two-letters', 'C19', [
    ('normalization/inflector.py',
     "                    best = self.__lm.best_token(lemma + 'ed', lemma + lemma[-1] + 'ed')\n",
     "                    best = self.__lm.best_token(lemma + 'ed', lemma + lemma[-1] + 'ed', before='was')\n")],
    'a language model that has bigrams, where "was" precedes the doubled form and the plain one is more frequent',
    'the context decides for another spelling than the word alone',
    LM + '''
from scrappybara.normalization.inflector import Inflector
grams(1, [('was', 9, 0.5), ('formated', 9, 0.3), ('formatted', 3, 0.1)])
grams(2, [('was formatted', 3, 0.1)])
same('formated', Inflector(LanguageModel(1, 1), {}).past_participle('format'))
''')

bug('c20-exact-vector', 'C20', [
    ('syntax/wordset.py',
     "            return self.__word_vector[word.lower()]\n", "            return self.__word_vector[word if word in self.__word_vector else word.lower()]\n")],
    'a vector table with a capitalised entry',
    'the vector depends on the case of the word',
    '''
import pickle
import numpy as np
from scrappybara.syntax.wordset import Wordset
with open(DATA / 'models' / 'word_vectors.pkl', 'wb') as f:
    pickle.dump({'us': np.ones(cfg.WORD_VECTOR_SIZE, dtype=np.float32), 'US': np.zeros(cfg.WORD_VECTOR_SIZE, dtype=np.float32)}, f)
w = Wordset().load()
same(w['us'].tolist(), w['US'].tolist())
''')

bug('c20-unknown-code', 'C20', [
    ('syntax/training_samples.py',
     "    return [charset[char] for char in token]\n",
     "    codes = [charset[char] for char in token]\n    return [code if code < len(charset) - 1 or char.isprintable() else 0 for code, char in zip(codes, token)]\n")],
    'a character that is not printable (a control character inside a word)',
    'it gets the code of the padding instead of the one of unknown characters',
    '''
from scrappybara.syntax.charset import Charset
from scrappybara.syntax.wordset import Wordset
from scrappybara.syntax.training_samples import vectorize_sentence
c = Charset().load()
_, chars, _ = vectorize_sentence(['a\\u200bb', 'aéb'], c, Wordset().load())
same(chars[2].tolist(), chars[1].tolist())
''')

bug('c22-left-root', 'C22', [
    ('syntax/parser.py',
     "        if pdep == Dep.ROOT:\n            return Dep.SPLIT  # ROOT cannot have any parent\n        return pdep\n",
     "        if pdep == Dep.ROOT:\n            return Dep.SPLIT  # ROOT cannot have any parent\n        if pdep == Dep.PAD:\n            return Dep.ORPHAN\n        return pdep\n")],
    'a token whose predicted dependency is the padding label',
    'its label is not the predicted one',
    PARSE + '''
from scrappybara.syntax.parser import Parser
row = [('ann', 'PROPN', 'SUBJ', 1), ('eats', 'VERB', 'ROOT', -1)]
learn(row)
for key in DEPS:
    DEPS[key] = [0, 2]
tags, out = Parser(1, 1)([['ann', 'eats']])
same([(0, 1, 0)], [(int(d), p, c) for d, p, c in out[0]])
''')

bug('c23-setdefault', 'C23', [
    ('utils/tree.py',
     "        try:\n            return self.__children[node][label]\n        except KeyError:\n            return []\n",
     "        try:\n            return self.__children[node].setdefault(label, [])\n        except KeyError:\n            return []\n")],
    'asking for the children along a label a node does not have, then whether it has a child along it',
    'the query changes the tree: the second answer is yes',
    '''
from scrappybara.utils.tree import Tree
t = Tree(0)
t.register_child('a', 0, 1)
same([], t.children_via(0, 'b'))
same(False, t.has_child_via(0, 'b'))
''')

bug('c23-ancestors', 'C23', [
    ('utils/tree.py',
     "                    anc_branch.append(_parent_node)\n                    _recurse_climb(_parent_node)\n",
     "                    anc_branch.append(_parent_node)\n                    if _parent_node != self.root:\n                        _recurse_climb(_parent_node)\n")],
    'a tree whose declared root itself gets a parent later (re-rooted by a registration)',
    'the climb stops at the declared root although arcs go on',
    '''
from scrappybara.utils.tree import Tree
t = Tree(1)
t.register_child('a', 1, 2)
t.register_child('a', 0, 1)
same([0, 1], t.ancestors_via(2, 'a'))
''')

bug('c24-skip-short', 'C24', [
    ('syntax/labelled_data.py',
     "    ptags_samples = [PTagsSample(sent.tokens, sent.tags, charset, wordset) for sent in labelled_sents]\n",
     "    ptags_samples = [PTagsSample(sent.tokens, sent.tags, charset, wordset) for sent in labelled_sents if len(sent) > 1]\n")],
    'a sentence of one token', 'it gives no sample for tags',
    '''
from scrappybara.syntax.charset import Charset
from scrappybara.syntax.wordset import Wordset
from scrappybara.syntax.labelled_data import extract_ptags_training_data
row = [('Go', 'VERB', 'ROOT', -1)]
row2 = [('ann', 'PROPN', 'SUBJ', 1), ('eats', 'VERB', 'ROOT', -1)]
same(2, len(extract_ptags_training_data([row, row2], Charset().load(), Wordset().load())[0]))
''')

bug('c24-deps-shuffle', 'C24', [
    ('syntax/labelled_data.py',
     "    random.shuffle(pdeps_samples)\n    # Prepare tensors\n    data_per_sample = [pdeps_sample.training_mats for pdeps_sample in pdeps_samples]\n    return [list(data) for data in zip(*data_per_sample)]\n",
     "    # Prepare tensors\n    data = [list(data) for data in zip(*[pdeps_sample.training_mats for pdeps_sample in pdeps_samples])]\n    state = random.getstate()\n    for column in data:\n        random.setstate(state)\n        random.shuffle(column[:])\n        random.shuffle(column)\n        state = random.getstate() if len(column) > 20 else state\n    return data\n")],
    'more than twenty sentences', 'inputs and labels are shuffled differently',
    '''
import random
import numpy as np
from scrappybara.syntax.charset import Charset
from scrappybara.syntax.wordset import Wordset
from scrappybara.syntax.labelled_data import extract_pdeps_training_data
rows = [[('w', 'NOUN', 'CPL', i)] * i + [('go', 'VERB', 'ROOT', -1)] for i in range(1, 25)]
data = extract_pdeps_training_data(rows, Charset().load(), Wordset().load())
for tags, chars, vecs, deps in zip(*data):
    same(int(np.count_nonzero(tags)), int(np.count_nonzero(deps)))
    same(int(np.count_nonzero(tags)) + 2, int(np.count_nonzero(np.asarray(chars)[:, 0])))
''')

bug('c25-obj-children', 'C25', [
    ('syntax/arg_finder.py', "        if not tree.children(v):\n            verbs.append(v)\n", "        if not tree.has_child_via(v, Dep.OBJ):\n            verbs.append(v)\n")],
    'a conjoined verb that has dependents but no object',
    'the object of the first verb is also given to it',
    '''
row = [('ann', 'PROPN', 'SUBJ', 1), ('buys', 'VERB', 'ROOT', -1), ('pie', 'NOUN', 'OBJ', 1), ('and', 'CONJ', 'NODEP', -1), ('sleeps', 'VERB', 'AND', 1), ('well', 'ADV', 'CPL', 4)]
same(['NCL(pie, be, bought)', 'PI(ann, sleep)', 'PTN(ann, buy, pie)'], stuples(row))
''')

bug('c25-rel-obj', 'C25', [
    ('semantics/semantic_tuple_extractor.py',
     "        if not verb.objs and verb.canon not in self.__not_intransitive:\n            # Intransitive forms\n",
     "        if not [o for o in verb.objs if o.tag in NOUN_TAGS] and verb.canon not in self.__not_intransitive:\n            # Intransitive forms\n")],
    'a verb whose only object is not a noun (a clause, an adverb)',
    'a tuple for the subject alone is made although there is an object',
    '''
row = [('ann', 'PROPN', 'SUBJ', 1), ('know', 'VERB', 'ROOT', -1), ('why', 'ADV', 'OBJ', 1)]
same([], stuples(row))
''')

bug('c26-prop-tags', 'C26', [
    ('semantics/semantic_tuple_extractor.py',
     "                        if not obj_1.objs and obj_1.canon not in self.__not_intransitive:\n                            is_aff = xnor(subj_1",
     "                        if not obj_1.objs and not obj_1.iobjs and obj_1.canon not in self.__not_intransitive:\n                            is_aff = xnor(subj_1")],
    'a clause object with a recipient and no object ("wants to write Ann")',
    'the quadruple is missing',
    '''
row = [('ann', 'PROPN', 'SUBJ', 1), ('want', 'VERB', 'ROOT', -1), ('to', 'FRAG', 'PART', 3), ('write', 'VERB', 'OBJ', 1), ('bob', 'PROPN', 'IOBJ', 3)]
same(True, 'PTPI(ann, want, ann, write)' in stuples(row))
''')

bug('c27-comparative', 'C27', [
    ('syntax/arg_finder.py',
     "                if cmark is not None and parent.tag == Tag.ADJ and node.tag in NOUN_TAGS:\n",
     "                if cmark is not None and mark is None and parent.tag == Tag.ADJ and node.tag == Tag.NOUN:\n")],
    'a comparison with a name or pronoun ("as big as Paris")',
    'the property of the compared noun is missing',
    '''
row = [('ann', 'PROPN', 'SUBJ', 1), ('be', 'VERB', 'ROOT', -1), ('big', 'ADJ', 'PROP', 1), ('as', 'CONJ', 'CMARK', 4), ('paris', 'PROPN', 'CPL', 2)]
same(['PCA(ann, be, big)', 'PCA(paris, be, big)'], stuples(row))
''')

bug('c27-pp-noun', 'C27', [
    ('syntax/arg_finder.py',
     "                            if prop is not None and node.suffix == Suffix.PAST:\n",
     "                            if prop is not None and node.lemma.endswith('ed'):\n")],
    'an irregular participle with a property ("known guilty")',
    'the property tuple of the noun is missing',
    '''
row = [('man', 'NOUN', 'SUBJ', 3), ('known', 'ADJ', 'CPL', 0), ('guilty', 'ADJ', 'PROP', 1), ('sleeps', 'VERB', 'ROOT', -1)]
same(True, 'NCA(man, be known, guilty)' in stuples(row))
''')

bug('c28-iobj', 'C28', [
    ('semantics/semantic_tuple_extractor.py',
     "ArgCode.REC.value, xnor(subj.is_aff, verb.is_aff, iobj.is_aff))", "ArgCode.REC.value, xnor(subj.is_aff, verb.is_aff) and iobj.is_aff)")],
    'a negated recipient together with one more negation',
    'the two negations do not cancel out',
    '''
row = [('ann', 'PROPN', 'SUBJ', 2), ('not', 'ADV', 'NEG', 2), ('give', 'VERB', 'ROOT', -1), ('no', 'DET', 'NEG', 4), ('man', 'NOUN', 'IOBJ', 2), ('cake', 'NOUN', 'OBJ', 2)]
same(True, 'PRN(ann, give, man)' in stuples(row))
''')

bug('c28-agent', 'C28', [
    ('semantics/semantic_tuple_extractor.py',
     "                    is_aff = xnor(agent.is_aff, copula.is_aff, prop.is_aff, noun.is_aff)\n", "                    is_aff = xnor(agent.is_aff, is_aff)\n")],
    'several agents of one participle, the first of them negated',
    'the polarity of the following agents includes the one of the agents before them',
    '''
row = [('ann', 'PROPN', 'SUBJ', 1), ('is', 'VERB', 'ROOT', -1), ('loved', 'ADJ', 'PROP', 1), ('by', 'PREP', 'MARK', 5), ('not', 'ADV', 'NEG', 5), ('bob', 'PROPN', 'CPL', 2), ('or', 'CONJ', 'NODEP', -1), ('cid', 'PROPN', 'OR', 5)]
same(['PCL(ann, be, loved)', 'PTP(bob, NOT love, ann)', 'PTP(cid, love, ann)'], stuples(row))
''')

bug('c29-iprop-particle', 'C29', [
    ('semantics/semantic_tuple_extractor.py',
     "                pp = self.__inflector.past_participle(verb.lemma)\n                if verb.particles:\n                    pp = cfg.COMPOUND_JOIN.join([pp] + verb.particles)\n                adj_arg",
     "                pp = self.__inflector.past_participle(verb.lemma)\n                if verb.particles:\n                    pp = cfg.COMPOUND_JOIN.join([pp] + verb.particles[:1])\n                adj_arg")],
    'a verb with two particles ("look down upon")',
    'the second particle is lost in the passive tuple',
    '''
row = [('ann', 'PROPN', 'SUBJ', 1), ('look', 'VERB', 'ROOT', -1), ('down', 'FRAG', 'PART', 1), ('upon', 'FRAG', 'PART', 1), ('bob', 'PROPN', 'OBJ', 1)]
same(['PCL(bob, be, looked down upon)', 'PTP(ann, look down upon, bob)'], stuples(row))
''')

bug('c29-passive-inf', 'C29', [
    ('semantics/semantic_tuple_extractor.py',
     "            if node.tag == Tag.VERB and not node.cannot_be_transitive:\n                stuples.extend(self.__make_stuples_from_objs(node))\n",
     "            if node.tag == Tag.VERB and not any([node.is_inf_to, node.cannot_be_transitive]):\n                stuples.extend(self.__make_stuples_from_objs(node))\n")],
    'the object of a verb in "to" form',
    'it yields no passive tuple',
    '''
row = [('ann', 'PROPN', 'SUBJ', 1), ('want', 'VERB', 'ROOT', -1), ('to', 'FRAG', 'PART', 3), ('eat', 'VERB', 'OBJ', 1), ('cake', 'NOUN', 'OBJ', 3)]
same(['NCL(cake, be, eaten)', 'PTPTN(ann, want, ann, eat, cake)'], stuples(row))
''')

bug('c30-chunk-propn', 'C30', [
    ('normalization/canonicalizer.py', "        if node.tag == Tag.NOUN and node.chunk:\n", "        if node.tag == Tag.NOUN and node.chunk and len(node.chunk) < 40:\n")],
    'a long compound', 'only its head noun is kept',
    '''
row = [('aaaaaaaaaa', 'NOUN', 'CPL', 4), ('bbbbbbbbbb', 'NOUN', 'CPL', 4), ('cccccccccc', 'NOUN', 'CPL', 4), ('dddddddddd', 'NOUN', 'CPL', 4), ('eeeee', 'NOUN', 'SUBJ', 5), ('sing', 'VERB', 'ROOT', -1)]
same(['NI(aaaaaaaaaa bbbbbbbbbb cccccccccc dddddddddd eeeee, sing)'], stuples(row))
''')

bug('c30-her', 'C30', [
    ('normalization/canonicalizer.py', "        if node.tag == Tag.PRON and node.lemma in", "        if node.tag == Tag.PRON and node.original in")],
    'an object pronoun written with a capital', 'it does not take its subject form',
    '''
row = [('ann', 'PROPN', 'SUBJ', 1), ('loves', 'VERB', 'ROOT', -1), ('Him', 'PRON', 'OBJ', 1)]
same(True, 'PTO(ann, love, he)' in stuples(row))
''')

bug('c31-theirself', 'C31', [
    ('syntax/arg_finder.py', "'ourself', 'ourselves',\n                            'theirself', ", "'ourselves',\n                            'theirself', ")],
    'the pronoun "ourself"', 'it is not replaced',
    '''
row = [('we', 'PRON', 'SUBJ', 1), ('love', 'VERB', 'ROOT', -1), ('ourself', 'PRON', 'OBJ', 1)]
same(True, 'OTO(we, love, we)' in stuples(row))
''')

bug('c31-rel-prop', 'C31', [
    ('syntax/arg_finder.py',
     "                        ref = self.__resolve_relative_pron(parent, subj, tree)\n                        if ref:\n",
     "                        ref = self.__resolve_relative_pron(parent, subj, tree) if subj.canon != 'which' else None\n                        if ref:\n")],
    '"which" as subject of a copula in a relative clause',
    'the property is given to the pronoun',
    '''
row = [('cat', 'NOUN', 'SUBJ', 4), ('which', 'PRON', 'SUBJ', 2), ('is', 'VERB', 'CPL', 0), ('big', 'ADJ', 'PROP', 2), ('sleeps', 'VERB', 'ROOT', -1)]
same(['NCA(cat, be, big)', 'NI(cat, sleep)'], stuples(row))
''')

bug('c33-neg-decorator', 'C33', [
    ('semantics/semantic_tuple.py',
     "', '.join([arg.flatten(with_decorators) for arg in self.__args]) + ')'", "', '.join([arg.flatten(with_decorators or arg.code == 'C') for arg in self.__args]) + ')'")],
    'a negative copula and no decorators asked for', 'NOT is shown',
    '''
from scrappybara.semantics.argument import Argument
from scrappybara.semantics.semantic_tuple import SemanticTuple
t = SemanticTuple(Argument('cat', 'N'), Argument('be', 'C', False), Argument('big', 'A'))
same('NCA(cat, be, big)', t.flatten(False))
same('NCA(cat, NOT be, big)', t.flatten())
''')

bug('c34-last-line', 'C34', [
    ('utils/files.py', "        return {line.strip() for line in txt_file}\n", "        return {line[:-1].strip() for line in txt_file}\n")],
    'a word list without a line break at its end', 'the last word loses its last letter',
    '''
from scrappybara.utils.files import load_set_from_txt_file
(DATA / 'english' / 'x.txt').write_text('ab\\ncd\\nef')
same({'ab', 'cd', 'ef'}, load_set_from_txt_file('english', 'x.txt'))
''')

bug('c34-glove-dup', 'C34', [
    ('syntax/wordset.py', "                if language_model.has_ngram(word):\n", "                if language_model.has_ngram(word, 2):\n")],
    'a word the language model knows with count one', 'its vector is not kept',
    LM + '''
from scrappybara.syntax.wordset import Wordset
grams(1, [('a', 1, 0.5), ('b', 3, 0.2)])
(DATA / ('glove.6B.%dd.txt' % cfg.WORD_VECTOR_SIZE)).write_text(''.join(w + ' 0.5' * cfg.WORD_VECTOR_SIZE + '\\n' for w in 'abc'))
Wordset().save(str(DATA), LanguageModel(1))
same([0.5, 0.5, 0.0], [float(Wordset().load()[w][0]) for w in 'abc'])
''')

bug('c35-ceil', 'C35', [
    ('utils/mutables.py',
     "        ranges = np.linspace(0, len_list, num=nb_lists + 1)\n        for i in range(len(ranges) - 1):\n            result.append(items[int(ranges[i]):int(ranges[i + 1])])\n",
     "        size = int(round(len_list / nb_lists))\n        for i in range(nb_lists):\n            result.append(items[i * size:(i + 1) * size if i < nb_lists - 1 else len_list])\n")],
    'a list that is not a multiple of the number of pieces',
    'the last piece is longer or shorter than the others by more than one item',
    '''
from scrappybara.utils.mutables import divide_list
for n in range(1, 60):
    for k in range(1, n + 1):
        sizes = [len(x) for x in divide_list(list(range(n)), k)]
        if max(sizes) - min(sizes) > 1 or sum(sizes) != n:
            print(n, k, sizes)
            sys.exit(1)
''')

MODELS = '''
from scrappybara.syntax.models import PTagsModel, PDepsModel, TransModel
'''

bug('c36-masks', 'C36', [
    ('syntax/models.py', "np.array(word_vectors), np.array(masks_1),\n             np.array(masks_2)])", "np.array(word_vectors), np.array(masks_2),\n             np.array(masks_1)])")],
    'prediction of transitions (training is not affected)',
    'the two positions are exchanged between training and prediction',
    MODELS + '''
seen = []
model = TransModel(100)
model._model.predict = lambda inputs, *a, **k: (seen.append(inputs), np.eye(4)[[0]])[1]
model.predict([[1]], [[2]], [[3]], [[4]], [[5]], [[6]])
same([1, 2, 3, 4, 5, 6], [int(np.asarray(x).ravel()[0]) for x in seen[0]])
''')

bug('c36-files', 'C36', [
    ('syntax/models.py', "        self._model.load_weights(str(file_path('models', filename)))\n", "        if os.path.exists(file_path('models', filename)):\n            self._model.load_weights(str(file_path('models', filename)))\n"),
    ('syntax/models.py', "import numpy as np\nimport tensorflow as tf\n", "import os\n\nimport numpy as np\nimport tensorflow as tf\n")],
    'loading a model that was never saved',
    'an untrained model is used instead of an error',
    MODELS + '''
calls = []
model = PDepsModel(100)
model._model.load_weights = lambda path, *a, **k: calls.append(path)
model.load()
same(1, len(calls))
''')

bug('c36-best', 'C36', [
    ('syntax/models.py', "        return max(history.history[metric]) * 100\n", "        return history.history[metric][-1] * 100\n")],
    'a training whose last epoch is not the best one',
    'the accuracy returned is not the one of the weights that are kept',
    MODELS + '''
import types
model = PTagsModel(100)
model._model.fit = lambda *a, **k: types.SimpleNamespace(history={'accuracy': [0.5, 0.75, 0.25], 'val_accuracy': [0.5, 0.75, 0.25]})
same(75.0, model.learn(8, 2, 3, [0], 0.1, [0], [0]))
''')

bug('c37-warning', 'C37', [
    ('syntax/labelled_data.py', "        append_to_dict_list(self.__warnings, token_idx, warning)\n", "        if warning not in self.__warnings.get(token_idx, []):\n            append_to_dict_list(self.__warnings, token_idx, warning)\n            self.__warnings[token_idx].sort(key=lambda w: w['comment'])\n")],
    'two warnings on one token, not in alphabetical order', 'they come out in another order',
    '''
import json
s = LabelledSentence(0, [('a', 'VERB', 'ROOT', -1)])
s.register_warning(0, 'z', [1])
s.register_warning(0, 'a', [2])
same(['z', 'a'], [w['comment'] for w in json.loads(s.warnings_json)['0']])
''')

bug('c37-leaf', 'C37', [
    ('syntax/labelled_data.py', "        return not bool(self.tree.children(idx))\n", "        return not self.tree.has_node(idx) or not any(self.tree.children_via(idx, dep) for dep in set(self.deps) - {Dep.PART, Dep.FLAT})\n")],
    'a token whose only dependent is a particle or a name part', 'it is reported as a leaf',
    '''
s = LabelledSentence(0, [('look', 'VERB', 'ROOT', -1), ('up', 'FRAG', 'PART', 0)])
same([False, True], [s.is_leaf(0), s.is_leaf(1)])
''')

bug('c38-falsy', 'C38', [
    ('utils/text.py', "    return '»'.join([str(token)] + [str(a) for a in attrs if a is not None])\n", "    return '»'.join([str(token)] + [str(a) for a in attrs if a])\n")],
    'an attribute that is zero, False or empty', 'it is left out',
    '''
from scrappybara.utils.text import attach_attributes, detach_attributes
same(['w', '0', 'x', ''], detach_attributes(attach_attributes('w', 0, None, 'x', '')))
''')

bug('c38-three', 'C38', [
    ('utils/text.py', "        word_1, word_2 = text.split('ǁ')\n        return word_1, word_2\n", "        word_1, word_2 = text.split('ǁ', 1)\n        return word_1, word_2\n")],
    'an association of three words', 'it is taken apart as a pair',
    '''
from scrappybara.utils.text import associate, dissociate
same(None, dissociate(associate('a', 'b', 'c')))
same(('a', 'b'), dissociate(associate('a', 'b')))
''')

bug('c21-late-tokens', 'C21', [
    ('syntax/labelled_data.py',
     "            if parent_idx < max_idx:\n                return True\n        # Check children\n",
     "            if parent_idx < max_idx and self.deps[token_idx] != Dep.ORPHAN:\n                return True\n        # Check children\n")],
    'a token attached as orphan to a token that is not on top of the stack',
    'the transitions derived from the annotation do not attach it',
    PARSE + """
row = [('go', 'VERB', 'ROOT', -1), ('now', 'ADV', 'CPL', 0), ('us', 'PRON', 'ORPHAN', 0)]
same(annotated(row), trees([row])[1][0])
""")

bug('c32-orphan', 'C32', [
    ('syntax/dependencies.py', "Dep.PART, Dep.MODAL}\n", "Dep.PART, Dep.MODAL,\n                   Dep.ORPHAN}\n")],
    'a clause attached as orphan',
    'it yields no tuple',
    """
row = [('go', 'VERB', 'ROOT', -1), ('ann', 'PROPN', 'SUBJ', 2), ('sings', 'VERB', 'ORPHAN', 0)]
same(['PI(ann, sing)'], stuples(row))
""")
