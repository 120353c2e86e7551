bug('c05-characters', 'C05', [
    ('pipeline/pipeline.py', "            if len(tokens) > cfg.MAX_SENT_LENGTH:\n", "            if len(tokens) > cfg.MAX_SENT_LENGTH or sum(map(len, tokens)) > 2000:\n")],
    'a sentence of few tokens, but of very long words, with a delimiter',
    'it is split although it is short enough',
    '''
class Splitter(object):
    def __call__(self, text):
        return [['a' * 1500, '-', 'b' * 1500]]


row = [('a' * 1500, 'NOUN', 'SUBJ', 2), ('-', 'PUNCT', 'NODEP', -1), ('b' * 1500, 'VERB', 'ROOT', -1)]
learn(row, [('a' * 1500, 'NOUN', 'ROOT', -1)], [('b' * 1500, 'NOUN', 'ROOT', -1)])
docs = sb.Pipeline(sentencizer=Splitter(), nb_cores=1)(['x'])
same(1, len(docs[0].sentences))
''')

bug('c15-first-contexts', 'C15', [
    ('langmodel/language_model.py', "        for ngram, next_tokens in self.__next_tokens.items():\n",
     "        for ngram, next_tokens in list(self.__next_tokens.items())[:50000]:\n")],
    'a model with more than fifty thousand contexts, in no order',
    'the words after the last contexts are not ranked',
    '''
from scrappybara.langmodel.language_model import LanguageModel
with open(DATA / 'langmodel' / '1_grams.txt', 'w', encoding='utf-8') as f:
    f.write('x\\t1\\t0.5\\n')
with open(DATA / 'langmodel' / '2_grams.txt', 'w', encoding='utf-8') as f:
    for i in range(60000):
        head = 'w' + ''.join('abcdefghij'[int(d)] for d in str(i))
        f.write('%s x\\t1\\t0.00001\\n%s y\\t1\\t0.00002\\n' % (head, head))
lm = LanguageModel(1, 1)
same(['y', 'x'], [w for w, _ in lm.next_word('wfjjjj')])
''')

bug('c27-article-fix', 'C27', [
    ('syntax/fixer.py', "        if not node_tree.children(node):\n",
     "        if not [c for d, c in node_tree.children(node) if d != Dep.ART]:\n")],
    'a word that can be a noun or an adjective, with an article of its own',
    'it is taken for an adjective although it governs another word',
    '''
row = [('the', 'DET', 'ART', 1), ('new', 'NOUN', 'CPL', 2), ('car', 'NOUN', 'ROOT', -1)]
same([], [t for t in stuples(row) if 'be' in t])
''')

bug('c38-closing-bracket', 'C38', [
    ('utils/text.py', "    return fname, arg[:-1]", "    return fname, arg.rstrip(')')")],
    'an argument that ends with a closing bracket',
    'the bracket is lost',
    '''
from scrappybara.utils.text import functionalize, defunctionalize
same(('f', 'x :)'), tuple(defunctionalize(functionalize('f', 'x :)'))))
''')

bug('c30-pronoun-with-noun', 'C30', [
    ('normalization/canonicalizer.py', "        if node.tag == Tag.PRON and node.lemma in", "        if node.tag == Tag.PRON and not node.chunk and node.lemma in")],
    'an object pronoun with a noun in front of it ("team them")',
    'it keeps its object form',
    '''
row = [('We', 'PRON', 'SUBJ', 1), ('like', 'VERB', 'ROOT', -1), ('team', 'NOUN', 'CPL', 3), ('them', 'PRON', 'OBJ', 1)]
same(True, any('they' in t for t in stuples(row)) and not any('them' in t for t in stuples(row)))
''')

bug('c08-capital-bullet', 'C08', [
    ('preprocessing/tokenizer.py', r"\s([*-])([a-zA-Z]+)(?=\s|$)", r"\s([*-])([a-z]+)(?=\s|$)")],
    'a bullet glued to a capitalised word',
    'the bullet stays part of the word',
    '''
from scrappybara.preprocessing.tokenizer import Tokenizer
same(['some', '-', 'apples', '*', 'Pears'], Tokenizer()('some -apples *Pears'))
''')

bug('c36-first-sentences', 'C36', [
    ('syntax/models.py', "        seqs = self._model.predict([np.array(tag_codes), np.array(char_codes), np.array(word_vectors)])\n        return [[np.argmax(probas) for probas in seq] for seq in seqs]",
     "        seqs = self._model.predict([np.array(tag_codes), np.array(char_codes), np.array(word_vectors)])\n        return [[np.argmax(probas) for probas in seq] for seq in seqs[:512]]")],
    'more than 512 sentences in one batch',
    'the dependencies of the others are not read',
    '''
from scrappybara.syntax.models import PDepsModel
model = PDepsModel(100)
model._model.predict = lambda inputs, *a, **k: np.ones((len(inputs[0]), 2, 3))
same(600, len(model.predict([[0]] * 600, [[0]] * 600, [[0]] * 600)))
''')

bug('c29-shouted-agent', 'C29', [
    ('syntax/arg_finder.py', "        if marker.canon == 'by':", "        if marker.original in {'by', 'By'}:")],
    'a passive sentence in capitals',
    'its agent is not found',
    '''
row = [('CAKES', 'NOUN', 'ROOT', -1), ('BAKED', 'ADJ', 'CPL', 0), ('BY', 'PREP', 'MARK', 3), ('ANN', 'PROPN', 'CPL', 1)]
low = [(w.lower(), t, d, p) for w, t, d, p in row]
same(stuples(low), stuples(row))
''')

bug('c32-known-sentence', 'C32', [
    ('pipeline/logic_pipeline.py', "        tokens, tags, idx_tree, chunk_common_nouns = sentence_pack\n",
     "        tokens, tags, idx_tree, chunk_common_nouns = sentence_pack\n        key = (tuple(tokens), tuple(tags), chunk_common_nouns)\n        cache = self.__dict__.setdefault('cache', {})\n        if idx_tree is not None and key in cache:\n            return cache[key]\n"),
    ('pipeline/logic_pipeline.py', "        stuples = self._extract_stuples(node_dict.values())\n        return node_dict, stuples",
     "        stuples = self._extract_stuples(node_dict.values())\n        cache[key] = node_dict, stuples\n        return node_dict, stuples")],
    'two sentences of the same words and tags, but of different trees',
    'the second one is given the tuples of the first one',
    '''
a = [('dogs', 'NOUN', 'SUBJ', 1), ('see', 'VERB', 'ROOT', -1), ('cats', 'NOUN', 'OBJ', 1)]
b = [('dogs', 'NOUN', 'OBJ', 1), ('see', 'VERB', 'ROOT', -1), ('cats', 'NOUN', 'SUBJ', 1)]
same(False, stuples(a) == stuples(b))
''')

bug('c11-first-character', 'C11', [
    ('langmodel/language_model_builder.py', "                    batch.append(next(text_iterator))\n", "                    batch.append(next(text_iterator).lstrip('\\ufeff'))\n")],
    'a text that starts with a byte order mark',
    'its first word, which is not made of letters only, is counted',
    '''
import io
from scrappybara.langmodel.language_model_builder import LanguageModelBuilder
with contextlib.redirect_stdout(io.StringIO()):
    LanguageModelBuilder(1, 'maximum_likelihood_estimation', 2)(iter(['\\ufeffcats like dogs']))
same(['dogs', 'like'], sorted(line.split('\\t')[0] for line in open(DATA / 'langmodel' / '1_grams.txt', encoding='utf-8')))
''')
