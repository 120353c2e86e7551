exec(open(__import__('os').path.join('/verif/tools/bugs', 'b_4.py'), encoding='utf-8').read().split("\nbug(")[0])

bug('c07-many-urls', 'C07', [
    ('preprocessing/tokenizer.py', "            while match:", "            while match and index < 100:")],
    'more than a hundred URLs in one text',
    'those after the hundredth are cut at their punctuation',
    TOK + '''
urls = ['http://site.com/a,b%d' % i for i in range(130)]
same(urls, tok(' '.join(urls)))
''')

bug('c07-long-dotted', 'C07', [
    ('preprocessing/tokenizer.py', "            if any([re.fullmatch(regex, token) for regex in self.__re_token_nosplit_dot]):",
     "            if len(token) < 40 and any([re.fullmatch(regex, token) for regex in self.__re_token_nosplit_dot]):")],
    'a dotted name of forty characters or more',
    'it is not recognised and cut at its dots',
    TOK + '''
name = 'Com.Example.' * 4 + 'Package'
same(['see', name, 'now'], tok('see %s now' % name))
''')

bug('c10-many-lines', 'C10', [
    ('preprocessing/sentencizer.py', "        blocks = re.split(self.__re_newline, text)", "        blocks = re.split(self.__re_newline, text, 500)")],
    'a text of more than 500 lines',
    'the lines after that end no sentence',
    TOK + '''
same([['line']] * 700, sents('\\n'.join(['line'] * 700)))
''')

bug('c15-many-next', 'C15', [
    ('langmodel/language_model.py', "            next_tokens.sort(key=lambda x: x[1], reverse=True)", "            next_tokens.sort(key=lambda x: x[1], reverse=True)\n            del next_tokens[100:]")],
    'a context with more than a hundred next words',
    'only a hundred of them are kept, whatever the limit asked for',
    LM + '''
grams(1, [('a', 20, .5)])
grams(2, [('a w%s' % (chr(97 + i // 26) + chr(97 + i % 26)), 1, .001 + i / 1e6) for i in range(150)])
lm = LanguageModel(1, 1)
same(150, len(lm.next_word('a', 200)))
''')

bug('c15-high-order', 'C15', [
    ('langmodel/language_model.py', "        for i in range(self.__max_order, 1, -1):", "        for i in range(min(self.__max_order, 5), 1, -1):")],
    'a model of order six',
    'its longest n-grams are not used to choose between candidates',
    LM + '''
grams(1, [(w, 5, .1) for w in 'abcdexy'])
for n in (2, 3, 4, 5):
    grams(n, [])
grams(6, [('a b c d e x', 3, .2)])
lm = LanguageModel(1, 1, 1, 1, 1, 1)
same('x', lm.best_token('x', 'y', before='a b c d e'))
same('x', lm.best_token('y', 'x', before='a b c d e'))
''')

bug('c32-many-tuples', 'C32', [
    ('semantics/semantic_tuple_extractor.py', "        return stuples\n\n    def __make_stuples_from_verbs", "        return stuples[:200]\n\n    def __make_stuples_from_verbs")],
    'enumerated subjects, verbs and objects that give more than 200 tuples',
    'the rest of the tuples is lost',
    '''
def listed(words, tag, label, head):
    at = len(rows)
    for i, w in enumerate(words):
        rows.append([w, tag, label if i == 0 else 'AND', head if i == 0 else at])
rows = []
listed('Ann Bob Liz Tom Joe Sue Max'.split(), 'PROPN', 'SUBJ', 7)
listed('bake eat take see write use'.split(), 'VERB', 'ROOT', -1)
listed('apples dogs cities boxes hotels engines'.split(), 'NOUN', 'OBJ', 7)
same(288, len(stuples([tuple(r) for r in rows])))
''')

bug('c27-many-conjuncts', 'C27', [
    ('syntax/node.py', "        return [self] + self.and_cconjs + self.or_cconjs", "        return [self] + (self.and_cconjs + self.or_cconjs)[:4]")],
    'an enumeration of more than five members',
    'the tuples of the sixth member and those after it are missing',
    '''
rows = [['She', 'PRON', 'SUBJ', 1], ['is', 'VERB', 'ROOT', -1], ['big', 'ADJ', 'PROP', 1]]
rows += [[w, 'ADJ', 'AND', 2] for w in 'nice strange old new safe viral'.split()]
same(7, len(stuples([tuple(r) for r in rows])))
''')

bug('c11-short-counter', 'C11', [
    ('langmodel/ngram_store.py', "            ngram.count += 1", "            ngram.count = (ngram.count + 1) & 0xFFFF")],
    'a word that occurs more than 65535 times',
    'its count starts again from zero',
    BUILD + '''
same({'cat': 70000}, {k: v[0] for k, v in build(['cat ' * 35000] * 2).items()})
''')

bug('c30-long-name', 'C30', [
    ('syntax/nodifier.py', "                        flat_tokens = [tokens[i] for i in anc_branch] + [token]", "                        flat_tokens = [tokens[i] for i in anc_branch[:6]] + [token]")],
    'a name of more than seven words',
    'words in the middle of it are missing',
    '''
names = 'Hard Rock Stadium Kings Google Alphabet Slat Mandela Paris'.split()
rows = [('she', 'PRON', 'SUBJ', 1), ('likes', 'VERB', 'ROOT', -1)] + [(w, 'PROPN', 'OBJ' if i == 0 else 'FLAT', i + 1) for i, w in enumerate(names)]
same(True, all(' '.join(names).lower() in t.lower() for t in stuples(rows)))
''')

bug('c34-long-table', 'C34', [
    ('utils/files.py', "[line.strip().split('\\t') for line in txt_file]", "[line.strip().split('\\t') for line in txt_file.readlines(65536)]")],
    'a table of more than 64 kB',
    'the rows after the first block are not read',
    '''
from scrappybara.utils import files
rows = {'key%d' % i: 'value%d' % i for i in range(9000)}
(DATA / 'english' / 'x.txt').write_text(''.join('%s\\t%s\\n' % r for r in rows.items()))
same(rows, files.load_dict_from_txt_file('english', 'x.txt'))
''')
