exec(open(__import__('os').path.join('/verif/tools/bugs', 'b_4.py'), encoding='utf-8').read().split("\nbug(")[0])

bug('c04-text-cache', 'C04', [
    ('pipeline/pipeline.py', "        self.__sentencize = sentencizer\n",
     "        self.__seen = {}\n\n        def _sentencize(text):\n            key = (len(text), text[:64], text[-64:])\n"
     "            if key not in self.__seen:\n                self.__seen[key] = sentencizer(text)\n            return self.__seen[key]\n\n"
     "        self.__sentencize = _sentencize\n")],
    'two texts of the same length with the same start and end, different in the middle',
    'the second one is answered with the result of the first',
    SENT + '''
a, b, c = sent('ann'), sent('bob'), sent('liz')
learn(a, b, c)
pad = '|'.join([words(c)] * 8)
pipe = sb.Pipeline(sentencizer=lambda t: [s.split() for s in t.split('|')], nb_cores=2)
for x in ('ann', 'bob'):
    same([expect(*['liz'] * 8 + [x] + ['liz'] * 8)], results(pipe(['|'.join([pad, words(sent(x)), pad])])))
''')

bug('c04-shared-empty', 'C04', [
    ('pipeline/pipeline.py', "                sentence.stuples = stuple_list", "                sentence.stuples = stuple_list or empty"),
    ('pipeline/pipeline.py', "        docs = []\n", "        docs = []\n        empty = []\n")],
    'a caller that adds to the tuples of a sentence that had none',
    'the addition shows in every other sentence without tuples',
    '''
h = [('Hello', 'EXPR', 'ROOT', -1)]
learn(h)
pipe = sb.Pipeline(sentencizer=lambda t: [t.split()], nb_cores=2)
sents = [s for d in pipe(['Hello', 'Hello']) for s in d.sentences]
same([[], []], [s.stuples for s in sents])
sents[0].stuples.append('x')
same([['x'], []], [s.stuples for s in sents])
''')

bug('c05-dotted-delimiter', 'C05', [
    ('pipeline/pipeline.py', "lambda x: x in self.__splitters", "lambda x: x.strip('.') in self.__splitters")],
    'a token made of a delimiter and a dot, such as "-.", in a sentence that has to be cut',
    'the sentence is cut there as well and the token is lost',
    SENT + '''
a = sent('ann')
learn(a)
pipe = sb.Pipeline(sentencizer=lambda t: [t.split()], nb_cores=2)
same([0], [len(d.sentences) for d in pipe([words(a) + ' -. ' + 'very ' * 60])])
''')

bug('c08-slash-digit', 'C08', [
    ('preprocessing/tokenizer.py', "(?<=[a-z\\d][a-z])/", "(?<=[a-z][a-z])/")],
    'alternatives whose first word ends with a digit and a letter, in front of a number, such as m4a/12',
    'they stay one token',
    TOK + '''
same('we sell m4a / 12 files'.split(), tok('we sell m4a/12 files'))
''')

bug('c08-mid-quote', 'C08', [
    ('preprocessing/tokenizer.py', "(?<=\\w\\w\\w)'(?=\\w\\w\\w)", "(?<=[a-z]{3})'(?=[a-z]{3})")],
    'a missing blank around a quotation mark between words with accented or upper-case letters',
    'the words are not separated',
    TOK + '''
same("the caf\\u00e9 ' open today".split(), tok("the caf\\u00e9'open today"))
''')

bug('c09-hundred-quotes', 'C09', [
    ('preprocessing/sentencizer.py', "            shift += len(quote) - 4 - len(number)", "            shift += len(quote) - 4 - min(2, len(number))")],
    'a text with more than a hundred brackets',
    'from the hundredth on, characters around them are lost or doubled',
    TOK + '''
text = ' '.join('w%d (in side%d) x%d' % (i, i, i) for i in range(130))
want = [t for i in range(130) for t in ['w%d' % i, '(', 'in', 'side%d' % i, ')', 'x%d' % i]]
same(want, [t for s in sents(text) for t in s])
''')

bug('c11-same-text', 'C11', [
    ('langmodel/language_model_builder.py', "            for text_tokens in texts_tokens:\n", "            for text_tokens in {str(t): t for t in texts_tokens}.values():\n")],
    'a source that yields the same text twice within a batch',
    'the second one is not counted',
    BUILD + '''
same({'red': 3, 'tarts': 2, 'pies': 1}, {x: v[0] for x, v in build(['red tarts', 'red tarts', 'red pies'], nproc=3).items()})
''')

bug('c11-long-text', 'C11', [
    ('langmodel/language_model_builder.py', "texts_tokens = pool.map(self.__sentencize, batch)",
     "texts_tokens = [sents for sents in pool.map(self.__sentencize, batch) if len(sents) < 1000]")],
    'a text of a thousand sentences or more',
    'it is not counted',
    BUILD + '''
same({'red': 1200, 'tarts': 1200}, {x: v[0] for x, v in build(['red tarts.\\n' * 1200]).items()})
''')

bug('c15-next-raw', 'C15', [
    ('langmodel/language_model.py', "        tokens = self.__tokenize(text)\n        for i in", "        tokens = text.split()\n        for i in")],
    'a context whose last words are glued to a mark, or spelled "cannot"',
    'the words that followed it in the corpus are not found',
    LM + '''
grams(1, [('not', 9, 0.4), ('stop', 5, 0.1)])
grams(2, [('not stop', 5, 0.1)])
same([('stop', 0.1)], LanguageModel(1, 1).next_word('we cannot'))
''')

bug('c20-quote-char', 'C20', [
    ('syntax/training_samples.py', "    return [charset[char] for char in token]\n",
     "    return [charset[char] for char in token.replace('\\u2019', \"'\")]\n")],
    'a token with a typographic apostrophe',
    'the networks see the code of another character',
    '''
from scrappybara.syntax.training_samples import vectorize_sentence


class Codes(object):
    def __getitem__(self, char):
        return ord(char)


class Words(object):
    def __getitem__(self, word):
        return [0.0] * cfg.WORD_VECTOR_SIZE


_, chars, _ = vectorize_sentence(['don\\u2019t'], Codes(), Words())
same(True, 0x2019 in np.asarray(chars))
''')

bug('c30-chunk-marker', 'C30', [
    ('syntax/chunker.py', "not node_tree.has_child_via_set(noun, MARKER_DEPS) and", "not node_tree.has_child_via(noun, Dep.MARK) and")],
    'a compound whose noun has a preposition or another marker than MARK of its own',
    'it is chunked across the marker',
    '''
row = [('Ann', 'PROPN', 'SUBJ', 1), ('sells', 'VERB', 'ROOT', -1), ('like', 'FRAG', 'CMARK', 3), ('apple', 'NOUN', 'CPL', 4), ('pie', 'NOUN', 'OBJ', 1)]
print(stuples(row))
same(False, any('apple pie' in t or 'apple_pie' in t for t in stuples(row)))
''')

bug('c35-join-timeout', 'C35', [
    ('utils/multithreading.py', "        nb_threads[idx].join()\n", "        nb_threads[idx].join(2)\n")],
    'an item that takes more than two seconds',
    'its result is lost',
    '''
import time
from scrappybara.utils.multithreading import run_multithreads


def slow(i):
    if i == 3:
        time.sleep(5)
    return i


same(list(range(8)), run_multithreads(list(range(8)), slow, 8))
''')
