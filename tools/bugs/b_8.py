exec(open(__import__('os').path.join('/verif/tools/bugs', 'b_4.py'), encoding='utf-8').read().split("\nbug(")[0])
exec("MODELS = " + open("/verif/tools/bugs/b_4.py", encoding="utf-8").read().split("\nMODELS = ")[1].split("\nbug(")[0])
exec("LEM = " + open("/verif/tools/bugs/b_2.py", encoding="utf-8").read().split("\nLEM = ")[1].split("\nbug(")[0])

bug('c10-ordinal', 'C10', [
    ('preprocessing/tokenizer.py', r"(re.compile(r'\.(?=\s\d+\b)'), __nsd)", r"(re.compile(r'\.(?=\s\d)'), __nsd)")],
    'a sentence that starts with an ordinal or another word that begins with a digit',
    'the sentence before it does not end',
    TOK + '''
same([['He', 'left', '.'], ['5th', 'avenue', 'is', 'long', '.']], sents('He left. 5th avenue is long.'))
''')

bug('c08-percent-capital', 'C08', [
    ('preprocessing/tokenizer.py', "(re.compile(r'%(?=[a-z])', re.I), ' % ')", "(re.compile(r'%(?=[a-z])'), ' % ')")],
    'a percent sign glued to a capitalised word',
    'it is not cut off',
    TOK + '''
same(['save', '50', '%', 'Now'], tok('save 50%Now'))
''')

bug('c25-recipient-gap', 'C25', [
    ('syntax/arg_finder.py', "not tree.has_child_via(node, Dep.OBJ)]):", "not tree.has_child_via_set(node, {Dep.OBJ, Dep.IOBJ})]):")],
    'a noun described by a clause whose verb has a recipient but no object ("the apple I gave him")',
    'the noun is not taken as the object of that verb',
    '''
row = [('apple', 'NOUN', 'ROOT', -1), ('I', 'PRON', 'SUBJ', 2), ('show', 'VERB', 'CPL', 0), ('him', 'PRON', 'IOBJ', 2)]
same(True, any(t.startswith('OTN') for t in stuples(row)))
''')

bug('c25-early-complement', 'C25', [
    ('syntax/arg_finder.py', "                    if subj:\n                        # Subject to marked complement", "                    if subj and subj.idx < node.idx:\n                        # Subject to marked complement")],
    'a marked complement in front of the subject of the main verb ("to bake, I eat")',
    'its verb has no subject and yields no tuple',
    '''
row = [('because', 'CONJ', 'MARK', 1), ('bake', 'VERB', 'CPL', 4), (',', 'PUNCT', 'NODEP', -1), ('Ann', 'PROPN', 'SUBJ', 4), ('eat', 'VERB', 'ROOT', -1)]
same(2, len(stuples(row)))
''')

bug('c36-small-split', 'C36', [
    ('syntax/models.py', "        if validation_split:\n", "        if round(validation_split, 1):\n")],
    'a validation share below five percent',
    'the accuracy over the training data decides when to stop, and is the one returned',
    MODELS + '''
import types
model = PTagsModel(100)
model._model.fit = lambda *a, **k: types.SimpleNamespace(history={'accuracy': [0.5, 1.0], 'val_accuracy': [0.5, 0.75]})
same(75.0, model.learn(8, 2, 3, [0], 0.04, [0], [0]))
''')

bug('c03-remade-error', 'C03', [
    ('utils/multithreading.py', "        output_items.extend(nb_threads[idx].output_items)\n",
     "        output_items.extend(nb_threads[idx].output_items)\n        if isinstance(nb_threads[idx].error, KeyError) and not nb_threads[idx].error.args:\n            nb_threads[idx].error = None\n")],
    'an item that fails with a KeyError of no arguments',
    'the error is forgotten and the items of its thread are missing',
    '''
from scrappybara.utils.multithreading import run_multithreads


def process(item):
    if item == 2:
        raise KeyError
    return item


try:
    run_multithreads([1, 2, 3], process, 2)
except KeyError:
    same(1, 1)
else:
    same('KeyError', 'nothing')
''')

bug('c17-long-prefix', 'C17', [
    ('utils/text.py', "    if len(els) == 2:\n", "    if len(els) == 2 and len(els[0]) < 7:\n")],
    'a hyphenated word whose first part is long ("counter-attacks")',
    'the lemma of its second part is not looked up',
    LEM + '''
from scrappybara.syntax.tags import Tag
lem = lemmatizer([('attack', .1)], plural={'children': 'child'})
same(('step-child', 'counter-child'), (lem('step-children', Tag.NOUN)[0], lem('counter-children', Tag.NOUN)[0]))
''')

bug('c30-name-spelling', 'C30', [
    ('syntax/node.py', "        self.standard = text.lower()  #", "        self.standard = text.casefold()  #")],
    'a word with letters such as ß',
    'its canonical form is another word',
    '''
row = [('Ann', 'PROPN', 'SUBJ', 1), ('like', 'VERB', 'ROOT', -1), ('Straße', 'PROPN', 'OBJ', 1)]
same(True, all('straße' in t for t in stuples(row)))
''')

bug('c21-empty-tags', 'C21', [
    ('syntax/tagger.py', "tag_codes[idx][1:sl - 1]", "tag_codes[idx][1:max(sl - 1, 2)]")],
    'a sentence of no token among those to tag',
    'it gets a tag',
    '''
from scrappybara.syntax.tagger import Tagger
a = [('Ann', 'PROPN', 'SUBJ', 1), ('eats', 'VERB', 'ROOT', -1)]
learn(a, [])
same([2, 0], [len(t) for t in Tagger().tag([['Ann', 'eats'], []])])
''')
