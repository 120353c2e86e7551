SENT = '''
def sent(name, extra=0):
    """'<name> eats <name>x ... .' annotated, with extra tokens without dependency"""
    return [(name, 'PROPN', 'SUBJ', 1), ('eats', 'VERB', 'ROOT', -1), (name + 'x', 'PROPN', 'OBJ', 1)] + \\
        [(',', 'PUNCT', 'NODEP', -1)] * extra + [('.', 'PUNCT', 'NODEP', -1)]


def results(docs):
    return [[[str(t) for t in s.stuples if t.code == 'PTP'] for s in d.sentences] for d in docs]


def expect(*names):
    return [['PTP(%s, eat, %sx)' % (n, n)] for n in names]
'''

bug('c01-unsort', 'C01', [
    ('syntax/parser.py',
     "        mats = run_multithreads(token_lists, self.__vectorize_sentence, self.__nb_processes)\n",
     "        # Longest sentences first, so that the sentences of a batch have similar lengths\n"
     "        order = sorted(range(len(token_lists)), key=lambda i: len(token_lists[i]), reverse=True)\n"
     "        mats = run_multithreads([token_lists[i] for i in order], self.__vectorize_sentence, self.__nb_processes)\n"),
    ('syntax/parser.py',
     "        # Prepare results\n",
     "        # Prepare results (in the original order)\n        all_parses = [all_parses[i] for i in order]\n")],
    'at least three sentences whose order by length is not its own inverse permutation (two sentences, or already sorted ones, are fine)',
    'sentences get the analysis of other sentences: the sorting permutation is applied a second time instead of inverted',
    SENT + '''
def passive(name):
    return [(name, 'PROPN', 'SUBJ', 2), ('was', 'MAT', 'AUX', 2), ('eaten', 'VERB', 'ROOT', -1), ('by', 'PREP', 'IMARK', 4), (name + 'x', 'PROPN', 'IOBJ', 2), ('.', 'PUNCT', 'NODEP', -1)]


def short(name):
    return [(name, 'PROPN', 'SUBJ', 1), ('sleeps', 'VERB', 'ROOT', -1), ('.', 'PUNCT', 'NODEP', -1)]


pipe = sb.Pipeline(sentencizer=lambda text: [[w for w in text.split()]], nb_cores=2)
rows = [short('ann'), sent('bob'), passive('cid')]
learn(*rows)
alone = {words(r): [[str(t) for s in d.sentences for t in s.stuples] for d in pipe([words(r)])] for r in rows}
import itertools
for order in itertools.permutations(rows):
    texts = [words(r) for r in order]
    same([alone[t][0] for t in texts], [[str(t) for s in d.sentences for t in s.stuples] for d in pipe(texts)])
''')

bug('c01-empty-docs', 'C01', [
    ('pipeline/pipeline.py',
     "        for start, end in sent_ranges:\n            doc = Document()\n",
     "        for start, end in sent_ranges:\n            if start == end == total_sents:\n                continue\n            doc = Document()\n")],
    'a text without any sentence as the last text (or the only texts) of the call',
    'no document is returned for trailing texts without sentences, so documents and texts no longer pair up',
    SENT + '''
a = sent('ann')
learn(a)
pipe = sb.Pipeline(nb_cores=2)
same([expect('ann'), []], results(pipe([words(a), ' '])))
''')

bug('c01-one-sentence-cache', 'C01', [
    ('pipeline/pipeline.py',
     "        for token_lists in tokens:\n            new_total = total_sents + len(token_lists)\n",
     "        for idx, token_lists in enumerate(tokens):\n"
     "            if idx and len(token_lists) == 1 and token_lists == tokens[idx - 1][-1:]:\n"
     "                # Same sentence as the one just before: no need to process it again\n"
     "                sent_ranges.append((total_sents - 1, total_sents))\n"
     "                continue\n"
     "            new_total = total_sents + len(token_lists)\n"),
    ('pipeline/pipeline.py',
     "        tokens = [token_lists for group in tokens for token_lists in group]\n",
     "        tokens = [token_lists for i, group in enumerate(tokens) for token_lists in group\n"
     "                  if not (i and len(group) == 1 and group == tokens[i - 1])]\n")],
    'a text made of one sentence that equals the last sentence of a previous text of several sentences',
    'the two sites disagree on what a repeated text is (last sentence / whole text): every document after it is shifted by one sentence',
    SENT + '''
a, b, c = sent('ann'), sent('bob'), sent('cid')
learn(a, b, c)
table = {'1': [a, b], '2': [b], '3': [c], '4': [a]}
pipe = sb.Pipeline(sentencizer=lambda t: [[w[0] for w in s] for s in table[t]], nb_cores=2)
same([expect('ann', 'bob'), expect('bob'), expect('cid'), expect('ann')], results(pipe(['1', '2', '3', '4'])))
''')

bug('c02-cpu-flag', 'C02', [
    ('pipeline/pipeline.py',
     "            with tf.device('/CPU:0'):\n                _, _, _, stuple_lists = self.__process_tokens(tokens, chunk_common_nouns)\n",
     "            with tf.device('/CPU:0'):\n                _, _, _, stuple_lists = self.__process_tokens(tokens, True)\n")],
    'use_gpu=False together with chunk_common_nouns=False and a compound noun',
    'the chunking option is ignored on the CPU: the same text gives other arguments depending on the device flag',
    '''
s = [('ann', 'PROPN', 'SUBJ', 1), ('eats', 'VERB', 'ROOT', -1), ('apple', 'NOUN', 'CPL', 3), ('pie', 'NOUN', 'OBJ', 1)]
learn(s)
for gpu in (True, False):
    pipe = sb.Pipeline(sentencizer=lambda t: [t.split()], nb_cores=2, use_gpu=gpu)
    docs = pipe([words(s)], chunk_common_nouns=False)
    same(['PTN(ann, eat, pie)'], [str(t) for t in docs[0].stuples if t.code == 'PTN'])
''')

bug('c02-batch-padding', 'C02', [
    ('syntax/parser.py',
     "            for batch in parse_batches:\n                self.__predict_transitions(batch)\n            incomplete_parses = [parse for parse in all_parses if not parse.complete]\n",
     "            for batch in parse_batches:\n                self.__predict_transitions(batch)\n"
     "            # The first sentences are completed first\n"
     "            while incomplete_parses and incomplete_parses[0].complete:\n                incomplete_parses.pop(0)\n"
     "            incomplete_parses = [parse for parse in incomplete_parses[:self.__batch_size] if not parse.complete]\n")],
    'more incomplete sentences than the batch size after a round of transitions',
    'sentences beyond the first batch lose the rest of their transitions (incomplete trees) depending on the batch size',
    SENT + '''
ss = [sent(n) for n in ('ann', 'bob', 'cid', 'dan', 'eve')]
learn(*ss)
for size in (128, 2, 1):
    pipe = sb.Pipeline(sentencizer=lambda t: [t.split()], nb_cores=2, batch_size=size)
    same([expect(n) for n in ('ann', 'bob', 'cid', 'dan', 'eve')], results(pipe([words(s) for s in ss])))
''')

bug('c03-swallow-sentence', 'C03', [
    ('pipeline/logic_pipeline.py',
     "        tokens, tags, idx_tree, chunk_common_nouns = sentence_pack\n        node_dict, node_tree = self.__nodify(tokens, tags, idx_tree)\n",
     "        tokens, tags, idx_tree, chunk_common_nouns = sentence_pack\n"
     "        try:\n            node_dict, node_tree = self.__nodify(tokens, tags, idx_tree)\n"
     "        except (KeyError, TypeError, AttributeError):\n            return {}, []  # Malformed tree\n")],
    'an error raised while the nodes of one sentence are made (e.g. a token that is not a string)',
    'the sentence silently gets no tuples instead of the error being raised',
    '''
class Odd(str):
    def lower(self):
        raise TypeError('odd token')

s = [('ann', 'PROPN', 'SUBJ', 1), ('eats', 'VERB', 'ROOT', -1), (Odd('pie'), 'NOUN', 'OBJ', 1)]
try:
    stuples(s)
except TypeError:
    sys.exit(0)
print('no error')
sys.exit(1)
''')

bug('c03-swallow-sentencizer', 'C03', [
    ('pipeline/pipeline.py',
     "        tokens = run_multithreads(texts, self.__sentencize, self.__nb_processes)\n",
     "        tokens = run_multithreads(texts, self.__safe_sentencize, self.__nb_processes)\n"),
    ('pipeline/pipeline.py',
     "    def __split_tokens(self, token_lists):\n",
     "    def __safe_sentencize(self, text):\n        try:\n            return self.__sentencize(text)\n"
     "        except (ValueError, IndexError):  # Nothing to split\n            return []\n\n"
     "    def __split_tokens(self, token_lists):\n")],
    'a sentence splitter that raises ValueError or IndexError on one text',
    'the text gets an empty document instead of the error being raised',
    '''
def split(text):
    if text == 'bad':
        raise ValueError(text)
    return [text.split()]

s = [('ann', 'PROPN', 'SUBJ', 1), ('eats', 'VERB', 'ROOT', -1)]
learn(s)
pipe = sb.Pipeline(sentencizer=split, nb_cores=2)
pipe(['ann eats'])
try:
    pipe(['ann eats', 'bad', 'ann eats'])
except ValueError:
    sys.exit(0)
print('no error')
sys.exit(1)
''')

bug('c04-shared-quotes', 'C04', [
    ('preprocessing/sentencizer.py',
     "        self.__tokenize = tokenizer\n",
     "        self.__tokenize = tokenizer\n        self.__quotes = []\n        self.__brackets = []\n"),
    ('preprocessing/sentencizer.py',
     "        quotes = []\n        brackets = []\n",
     "        quotes = self.__quotes\n        brackets = self.__brackets\n        quotes.clear()\n        brackets.clear()\n")],
    'two threads splitting texts with quotations or brackets at the same time with the same sentencizer (as the pipeline does)',
    'quotations of one text show up in another one, or are lost',
    '''
import threading
from scrappybara.preprocessing.sentencizer import Sentencizer
from scrappybara.preprocessing.tokenizer import Tokenizer

inside, go = threading.Event(), threading.Event()
real = Tokenizer()

def tokenizer(text):
    if 'one' in text and threading.current_thread() is not threading.main_thread():
        inside.set()
        go.wait(20)
    return real(text)

split = Sentencizer(tokenizer)
out = []
t = threading.Thread(target=lambda: out.append(split('one "first quote" end.')))
t.start()
inside.wait(20)
split('two "second quote" end.')
go.set()
t.join()
same([[['one', '"', 'first', 'quote', '"', 'end', '.']]], out)
''')

bug('c04-lemma-memo', 'C04', [
    ('normalization/lemmatizer.py',
     "        self.__lemma_pp = lemma_pp\n",
     "        self.__lemma_pp = lemma_pp\n        self.__memo = {}  # Word => (lemma, suffix)\n"),
    ('normalization/lemmatizer.py',
     "    def __call__(self, word, tag):\n        \"\"\"Returns lemma & suffix (can be None)\"\"\"\n        word = word.lower()\n",
     "    def __call__(self, word, tag):\n        \"\"\"Returns lemma & suffix (can be None)\"\"\"\n        word = word.lower()\n"
     "        key = word if len(word) > 3 else (word, tag)  # Only short words are ambiguous\n"
     "        if key not in self.__memo:\n            self.__memo[key] = self.__find_lemma(word, tag)\n        return self.__memo[key]\n\n"
     "    def __find_lemma(self, word, tag):\n")],
    'the same word lemmatized as one part of speech and later as another one by the same object',
    'the answer depends on what the lemmatizer was asked before',
    '''
from scrappybara.langmodel.language_model import LanguageModel
from scrappybara.normalization.lemmatizer import Lemmatizer
lem = Lemmatizer(LanguageModel(1, 1), set(), {}, {}, {}, {}, {}, {})
lem('better', Tag.ADJ)
same('well', lem('better', Tag.ADV)[0])
''')

bug('c04-next-word-list', 'C04', [
    ('langmodel/language_model.py',
     "                return self.__next_tokens[' '.join(tokens[-i:])][:limit]\n",
     "                next_tokens = self.__next_tokens[' '.join(tokens[-i:])]\n"
     "                return next_tokens if limit is None or limit >= len(next_tokens) else next_tokens[:limit]\n")],
    'a caller that modifies the list it was given, and asks again',
    'the language model hands out its own list: the next answers are wrong',
    '''
from scrappybara.langmodel.language_model import LanguageModel
grams(1, [('a', 9, .5), ('b', 3, .3), ('c', 2, .2)])
grams(2, [('a b', 3, .6), ('a c', 2, .4)])
lm = LanguageModel(1, 1)
first = lm.next_word('a', 10)
first.clear()
same([('b', .6), ('c', .4)], lm.next_word('a'))
''')

bug('c05-limit', 'C05', [
    ('pipeline/pipeline.py',
     "        return [tokens for tokens in new_token_lists if len(tokens) <= cfg.MAX_SENT_LENGTH]\n",
     "        return [tokens for tokens in new_token_lists if len(tokens) < cfg.MAX_SENT_LENGTH]\n")],
    'a sentence (or a run between delimiters) of exactly 50 tokens',
    'it is dropped although it is within the limit',
    '''
s = [('ann', 'PROPN', 'SUBJ', 1), ('eats', 'VERB', 'ROOT', -1)] + [('.', 'PUNCT', 'NODEP', -1)] * 48
learn(s)
pipe = sb.Pipeline(sentencizer=lambda t: [t.split()], nb_cores=2)
same([['PI(ann, eat)']], [[str(t) for t in s.stuples] for s in pipe([words(s)])[0].sentences])
''')

bug('c05-splitter-runs', 'C05', [
    ('pipeline/pipeline.py',
     "itertools.groupby(tokens, lambda x: x in self.__splitters) if not b])\n",
     "itertools.groupby(tokens, lambda x: x[0] in self.__splitters) if not b])\n")],
    'a sentence over the limit with a token that only starts with a delimiter, such as ":)" or "-5"',
    'the token is treated as a delimiter: it is lost and the sentence is cut there',
    '''
seen = []
s = [('ann', 'PROPN', 'SUBJ', 1), ('eats', 'VERB', 'ROOT', -1), (':)', 'SYM', 'NODEP', -1)] + [('.', 'PUNCT', 'NODEP', -1)] * 30
r = [('bob', 'PROPN', 'SUBJ', 1), ('eats', 'VERB', 'ROOT', -1)] + [('.', 'PUNCT', 'NODEP', -1)] * 30
learn(s, r, s[:2], s[3:])
pipe = sb.Pipeline(sentencizer=lambda t: [t.split()], nb_cores=1)
docs = pipe([words(s) + ' ; ' + words(r)])
same([['PI(ann, eat)'], ['PI(bob, eat)']], [[str(t) for t in x.stuples] for x in docs[0].sentences])
''')

TOK = '''
from scrappybara.preprocessing.tokenizer import Tokenizer
tok = Tokenizer()
'''

bug('c06-ampersand', 'C06', [
    ('preprocessing/tokenizer.py',
     "        (re.compile(r'(?<=\\b)&(?!\\b)'), ' & '),\n",
     "        (re.compile(r'\\b&(\\W|$)'), ' & '),\n")],
    'an ampersand directly after a word and directly followed by a comma, slash or another symbol',
    'the symbol after the ampersand is lost',
    TOK + '''
same('salt&,pepper', ''.join(tok('salt&, pepper')))
''')

bug('c06-protect-index', 'C06', [
    ('preprocessing/tokenizer.py',
     "                index += 1\n",
     "                index = len(protected) % 9 + 1\n")],
    'ten or more different texts to protect (URLs, smileys) in one text',
    'keys are reused from the tenth protected text on: URLs are replaced by other ones',
    TOK + '''
urls = ['http://site%d.com/p' % i for i in range(12)]
same(urls, tok(' '.join(urls)))
''')

bug('c07-abbr-name', 'C07', [
    ('preprocessing/tokenizer.py',
     "        (re.compile(r'\\b%s(?=\\s[A-Z])' % __abbr_options, re.I), r'\\g<1>%s' % __nsd),  # Common abbreviation\n",
     "        (re.compile(r'\\b%s(?=\\s[A-Z][a-z])' % __abbr_options), r'\\g<1>%s' % __nsd),  # Common abbreviation\n"
     "        (re.compile(r'\\b%s(?=\\s[A-Z][a-z])' % __abbr_options.title(), re.I), r'\\g<1>%s' % __nsd),\n")],
    'a title before a name that is a single letter or has an apostrophe or capital in second place (Mr. T, Dr. O\'Neil)',
    'the dot of the title is cut off',
    TOK + '''
same(['ask', 'Dr.', 'McCoy'], tok('ask Dr. McCoy'))
same(['ask', 'Mrs.', 'O\\'Neil', 'now'], tok("ask Mrs. O'Neil now"))
''')

bug('c07-url-query', 'C07', [
    ('preprocessing/tokenizer.py',
     "        re.compile(r'(https?://|www\\.)[^\\s.]+(\\.[^\\s.]+)+(/[^\\s]*)*', re.I),  # URLs\n",
     "        re.compile(r'(https?://|www\\.)[^\\s./]+(\\.[^\\s./]+)+(/[\\w.%-]*)*', re.I),  # URLs\n"),
    ('preprocessing/tokenizer.py',
     "        re.compile(r'[^\\s.]+(\\.[^\\s.]+)+/[^\\s]*', re.I),  # URLs (shorter than above)\n",
     "        re.compile(r'[^\\s._]+(\\.[^\\s._]+)+/[^\\s]*', re.I),  # URLs (shorter than above)\n")],
    'a URL with a query string after its path',
    'the URL is cut at its query string',
    TOK + '''
same(['see', 'http://site.com/find?q=one;two', 'now'], tok('see http://site.com/find?q=one;two now'))
''')

bug('c08-clitic-case', 'C08', [
    ('preprocessing/tokenizer.py',
     "        (re.compile(r\"(n't|'re|'ll|'ve|'m|'d|'s)(?=\\s|$)\", re.I), r' \\g<1> '),\n",
     "        (re.compile(r\"(n't|'re|'ll|'ve|'m|'d|'[sS])(?=\\s|$)\"), r' \\g<1> '),\n")],
    'a clitic written in capitals (DON\'T, WE\'RE)',
    'it is not separated from its word',
    TOK + '''
same(['DO', "N'T", 'eat'], tok("DON'T eat"))
same(['WE', "'RE", 'here'], tok("WE'RE here"))
''')

bug('c08-feet-space', 'C08', [
    ('preprocessing/tokenizer.py',
     "        (re.compile(r'(?<=\\s)(\\d[\\d,.]*)\\'', re.I), r'\\g<1>ft'),  # Feet\n",
     "        (re.compile(r'(?<=\\s)(\\d[\\d,.]*)\\'\\s?', re.I), r'\\g<1>ft'),  # Feet\n")],
    'a measure in feet followed by a word',
    'the word after the measure is glued to it',
    TOK + '''
same(['a', '6ft', 'wall'], tok("a 6' wall"))
''')

SENTC = '''
from scrappybara.preprocessing.sentencizer import Sentencizer
split = Sentencizer()
'''

bug('c09-ten-quotes', 'C09', [
    ('preprocessing/sentencizer.py',
     "            shift += len(quote) - 4 - len(number)\n",
     "            shift += len(quote) - 5\n")],
    'more than ten quotations (or brackets) on one line',
    'from the eleventh on the replaced range is off by one: characters are lost and markers stay in the tokens',
    SENTC + '''
text = ' '.join('w%d "q%d"' % (i, i) for i in range(14))
same(text.replace(' ', ''), ''.join(t for s in split(text) for t in s))
''')

bug('c09-blank-quote', 'C09', [
    ('preprocessing/sentencizer.py',
     "            ctr.append(quote[1:-1])\n            number = str(len(ctr) - 1)\n",
     "            quote = quote if quote[1:-1].strip() else '\"\"'  # Blank quote\n"
     "            ctr.append(quote[1:-1])\n            number = str(len(ctr) - 1)\n")],
    'a quotation or bracket containing only blanks, followed by another one on the same line',
    'the length of the replaced text is wrong afterwards: characters are lost or duplicated',
    SENTC + '''
text = 'a " " b "see this" c'
same('a""b"seethis"c', ''.join(t for s in split(text) for t in s))
''')

bug('c10-empty-quote', 'C10', [
    ('preprocessing/sentencizer.py',
     "    __re_quote = re.compile(r'\".*?\"')\n",
     "    __re_quote = re.compile(r'\"[^\"]+\"')\n")],
    'an empty quotation before other sentences of the same line that contain a quotation mark',
    'the closing mark of the empty quotation is taken for an opening one: the enders after it no longer end sentences',
    SENTC + '''
same([['The', 'field', '"', '"', 'is', 'empty', '.'], ['He', 'typed', '"', 'ok', '"', 'there', '.']],
     split('The field "" is empty. He typed "ok" there.'))
''')

bug('c10-long-run', 'C10', [
    ('preprocessing/sentencizer.py',
     "    __re_sent_enders = re.compile(r'([.?!:]+|¶)')\n",
     "    __re_sent_enders = re.compile(r'([.?!:]{1,3}|¶)')\n")],
    'a run of four or more enders',
    'the sentence does not end after it',
    SENTC + '''
same([['He', 'left', '!!!'], ['She', 'stayed', '!!!!'], ['Bob', 'too']], split('He left!!! She stayed!!!! Bob too'))
''')
