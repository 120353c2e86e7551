PARSE = '''
def trees(rows):
    from scrappybara.syntax.parser import Parser
    learn(*rows)
    tags, out = Parser(2, 3)([[t[0] for t in r] for r in rows])
    return tags, [None if t is None else (t.root, sorted((int(d), p, c) for d, p, c in t)) for t in out]


def annotated(row):
    s = LabelledSentence(0, row)
    return s.tree.root, sorted((int(d), p, c) for d, p, c in s.tree)
'''

bug('c21-near-child', 'C21', [
    ('syntax/labelled_data.py',
     "        for _, child_idx in self.tree.children(token_idx):\n            if child_idx < max_idx:\n                return True\n        return False\n",
     "        left = [child_idx for _, child_idx in self.tree.children(token_idx) if child_idx < token_idx]\n        return any(child_idx < max_idx for child_idx in left[-3:])\n")],
    'a token with four children on its left, the first one having a child of its own on its right',
    'the transitions derived from the annotation do not rebuild the tree',
    PARSE + """
row = [('a', 'NOUN', 'SUBJ', 5), ('b', 'NOUN', 'CPL', 0), ('c', 'NOUN', 'CPL', 5), ('d', 'NOUN', 'CPL', 5), ('e', 'NOUN', 'CPL', 5), ('f', 'VERB', 'ROOT', -1)]
row2 = [('a', 'NOUN', 'OBJ', 4), ('b', 'NOUN', 'CPL', 0), ('c', 'NOUN', 'SUBJ', 4), ('x', 'NOUN', 'CPL', 2), ('d', 'VERB', 'ROOT', -1), ('e', 'NOUN', 'OBJ', 4)]
for r in (row, row2):
    same(annotated(r), trees([r])[1][0])
""")

bug('c21-nodep-shift', 'C21', [
    ('syntax/parser.py',
     "        self.__buffer = collections.deque([idx for idx in range(seq_length - 2) if self.__deps[idx] != Dep.NODEP])\n",
     "        self.__buffer = collections.deque(\n            [idx for idx in range(seq_length - 2) if self.__deps[idx] != Dep.NODEP and self.tags[idx] != Tag.PUNCT])\n")],
    'a punctuation token that has a dependency (a dash used as a conjunction, for instance)',
    'it is left out of the tree',
    PARSE + '''
row = [('come', 'VERB', 'ROOT', -1), ('-', 'PUNCT', 'MARK', 2), ('go', 'VERB', 'CPL', 0), ('.', 'PUNCT', 'NODEP', -1)]
same(annotated(row), trees([row])[1][0])
''')

bug('c22-rounds', 'C22', [
    ('syntax/parser.py',
     "        while incomplete_parses:\n            parse_batches",
     "        rounds = 0\n        while incomplete_parses and rounds < 70:\n            rounds += 1\n            parse_batches")],
    'a sentence of more than 35 tokens that needs nearly two transitions per token',
    'parsing stops early: tokens are left without parent',
    PARSE + '''
row = [('w%d' % i, 'NOUN', 'CPL', 44) for i in range(44)] + [('go', 'VERB', 'ROOT', -1)]
same(annotated(row), trees([row])[1][0])
''')

bug('c22-two-parents', 'C22', [
    ('syntax/parser.py',
     "        elif trans == Trans.REDUCE:\n            self.__reduce()\n",
     "        elif trans == Trans.REDUCE:\n            if len(self.__stack) > 1 or any([c == self.__stack[-1] for _, _, c in self.arcs]):\n                self.__reduce()\n            else:\n                self.__stack.append(self.__stack.pop())\n")],
    'a REDUCE predicted for a lone token of the stack that has no parent',
    'the same prediction is asked again for ever',
    PARSE + '''
import multiprocessing
def run():
    row = [('a', 'NOUN', 'SUBJ', 1), ('b', 'VERB', 'ROOT', -1), ('c', 'NOUN', 'OBJ', 1)]
    import common
    learn(row)
    for k in TRANS:
        TRANS[k] = {pair: 2 for pair in [(i, j) for i in range(3) for j in range(3)]}
    from scrappybara.syntax.parser import Parser
    Parser(1, 2)([['a', 'b', 'c']])
p = multiprocessing.get_context('fork').Process(target=run)
p.start()
p.join(20)
if p.is_alive():
    p.kill()
    print('endless')
    sys.exit(1)
sys.exit(p.exitcode)
''')

bug('c22-pad-label', 'C22', [
    ('syntax/parser.py',
     "        if pdep == Dep.ROOT:\n            return Dep.SPLIT  # ROOT cannot have any parent\n        return pdep\n",
     "        if pdep == Dep.ROOT:\n            return Dep.SPLIT if self.tags[child_idx] == Tag.VERB else Dep.CPL  # ROOT cannot have any parent\n        return pdep\n")],
    'a token predicted ROOT that is not a verb and gets a parent',
    'its arc has a label that was not predicted',
    PARSE + '''
row = [('go', 'VERB', 'ROOT', -1), ('home', 'NOUN', 'SPLIT', 0)]
learn(row)
for k in DEPS:
    DEPS[k] = [2, 2]
from scrappybara.syntax.parser import Parser
_, out = Parser(1, 2)([['go', 'home']])
same([(23, 0, 1)], [(int(d), p, c) for d, p, c in out[0]])
''')

TREE = '''
from scrappybara.utils.tree import Tree
'''

bug('c23-has-node', 'C23', [
    ('utils/tree.py',
     "        return any([node in self.__children, node in self.__parents])\n",
     "        return node == self.root or node in self.__parents\n")],
    'a tree with an arc whose parent is not connected to the root',
    'a node that has children is reported absent',
    TREE + '''
t = Tree('r')
t.register_child('x', 'r', 'a')
t.register_child('x', 'b', 'c')
same([True] * 4, [t.has_node(n) for n in 'rabc'])
''')

bug('c23-siblings', 'C23', [
    ('utils/tree.py',
     "                for child in children:\n                    if child != node:\n                        siblings.append((label, child))\n",
     "                for child in children:\n                    if child == node:\n                        break\n                    siblings.append((label, child))\n")],
    'a sibling with the same label registered after the node',
    'it is not reported',
    TREE + '''
t = Tree('r')
for label, c in (('x', 'a'), ('x', 'b'), ('y', 'c'), ('x', 'd')):
    t.register_child(label, 'r', c)
same([('x', 'a'), ('x', 'd'), ('y', 'c')], sorted(t.siblings('b')))
''')

bug('c23-descendants', 'C23', [
    ('utils/tree.py',
     "                for _child in _label_children[label]:\n                    nodes.append(_child)\n                    _recurse_add_descendants(_child)\n",
     "                nodes.extend(_label_children[label])\n                _recurse_add_descendants(_label_children[label][0])\n")],
    'a node whose second (or later) child along the label has children along it too',
    'they are missing from the descendants',
    TREE + '''
t = Tree('r')
for p, c in (('r', 'a'), ('r', 'b'), ('b', 'c'), ('a', 'd')):
    t.register_child('x', p, c)
same(['a', 'b', 'c', 'd'], sorted(t.descendants_via('r', 'x')))
''')

bug('c23-child-first', 'C23', [
    ('utils/tree.py',
     "            return any([key in labels for key in self.__children[node]])\n",
     "            return next(iter(self.__children[node])) in labels or len(labels.intersection(self.__children[node])) > 1\n")],
    'a node whose first registered child has a label outside the set, and a single later one inside it',
    'the child is not seen',
    TREE + '''
t = Tree('r')
t.register_child('y', 'r', 'a')
t.register_child('x', 'r', 'b')
same(True, t.has_child_via_set('r', {'x', 'z'}))
same(True, t.has_child_via_set('r', {'y', 'z'}))
''')

bug('c24-dedupe', 'C24', [
    ('syntax/labelled_data.py',
     "        for idx_1, idx_2, transition in sent.transitions:\n",
     "        if any([sent.tokens == other.tokens for other in labelled_sents[:idx]]):\n            continue  # Same sentence\n        for idx_1, idx_2, transition in sent.transitions:\n")],
    'two sentences with the same tokens (also with different annotations)',
    'the second one gives no sample',
    '''
from scrappybara.syntax.charset import Charset
from scrappybara.syntax.wordset import Wordset
from scrappybara.syntax.labelled_data import extract_trans_training_data
a = [('time', 'NOUN', 'SUBJ', 1), ('flies', 'VERB', 'ROOT', -1)]
b = [('time', 'VERB', 'ROOT', -1), ('flies', 'NOUN', 'OBJ', 0)]
data = extract_trans_training_data([a, b], Charset().load(), Wordset().load())
same([0, 1], sorted(data[-1]))
''')

bug('c24-cache', 'C24', [
    ('syntax/training_samples.py',
     "class _TrainingSample(object):\n\n    def __init__(self, tokens, charset, wordset):\n        _, self._char_ids, self._word_vectors = vectorize_sentence(tokens, charset, wordset)\n",
     "class _TrainingSample(object):\n    __cache = {}  # A sentence is used by many samples\n\n    def __init__(self, tokens, charset, wordset):\n        key = ' '.join(tokens).lower()\n"
     "        if key not in self.__cache:\n            self.__cache[key] = vectorize_sentence(tokens, charset, wordset)\n        _, self._char_ids, self._word_vectors = self.__cache[key]\n")],
    'two sentences that differ by case only, or by the place of blanks in tokens',
    'the second one is paired with the encoding of the first',
    '''
from scrappybara.syntax.charset import Charset
from scrappybara.syntax.wordset import Wordset
from scrappybara.syntax.labelled_data import extract_ptags_training_data
a = [('polish', 'VERB', 'ROOT', -1)]
b = [('Polish', 'ADJ', 'ROOT', -1)]
chars, _, tags = extract_ptags_training_data([a, b], Charset().load(), Wordset().load())
same(2, len({c.tobytes() for c in chars}))
''')

bug('c24-gold', 'C24', [
    ('syntax/labelled_data.py',
     "            trans_samples.append(\n                TransSample(sent.tokens,",
     "            if idx_2 - idx_1 > 30:\n                continue  # Too far\n            trans_samples.append(\n                TransSample(sent.tokens,")],
    'a transition between two tokens more than thirty positions apart',
    'it gives no sample',
    '''
from scrappybara.syntax.charset import Charset
from scrappybara.syntax.wordset import Wordset
from scrappybara.syntax.labelled_data import extract_trans_training_data
row = [('w', 'NOUN', 'CPL', 40) for i in range(40)] + [('go', 'VERB', 'ROOT', -1)]
same(len(LabelledSentence(0, row).transitions), len(extract_trans_training_data([row], Charset().load(), Wordset().load())[-1]))
''')

bug('c25-subj-children', 'C25', [
    ('syntax/arg_finder.py',
     "        if not tree.has_child_via(v, Dep.SUBJ):\n            verbs.append(v)\n",
     "        if not tree.has_child_via_set(v, {Dep.SUBJ, Dep.EXIST, Dep.IOBJ}):\n            verbs.append(v)\n")],
    'a conjoined verb with a recipient of its own',
    'the shared subject is not distributed to it',
    '''
row = [('ann', 'PROPN', 'SUBJ', 1), ('come', 'VERB', 'ROOT', -1), ('and', 'CONJ', 'NODEP', -1), ('give', 'VERB', 'AND', 1), ('bob', 'PROPN', 'IOBJ', 3), ('cake', 'NOUN', 'OBJ', 3)]
same(True, 'PRP(ann, give, bob)' in stuples(row))
''')

bug('c25-iobj-aggreg', 'C25', [
    ('syntax/arg_finder.py',
     "    verb.iobjs.extend(iobj.aggreg)\n", "    verb.iobjs.append(iobj)\n    verb.iobjs.extend(iobj.and_cconjs)\n")],
    'recipients linked by "or"',
    'the second one yields no tuple',
    '''
row = [('ann', 'PROPN', 'SUBJ', 1), ('give', 'VERB', 'ROOT', -1), ('bob', 'PROPN', 'IOBJ', 1), ('or', 'CONJ', 'NODEP', -1), ('cid', 'PROPN', 'OR', 2), ('cake', 'NOUN', 'OBJ', 1)]
same([True, True], [x in stuples(row) for x in ('PRP(ann, give, bob)', 'PRP(ann, give, cid)')])
''')

bug('c25-do', 'C25', [
    ('semantics/semantic_tuple_extractor.py',
     "    __not_intransitive = {'have', 'get', 'be', 'do'}\n", "    __not_intransitive = {'have', 'get', 'be'}\n")],
    'the verb "do" with a subject and no object',
    'an intransitive tuple is made of it',
    '''
same([], stuples([('ann', 'PROPN', 'SUBJ', 1), ('do', 'VERB', 'ROOT', -1)]))
''')

bug('c26-blocked', 'C26', [
    ('semantics/semantic_tuple_extractor.py',
     "                blocked_for_next_round.add(obj_1)\n                if not obj_1.subjs:\n",
     "                if not obj_1.objs:\n                    blocked_for_next_round.add(obj_1)\n                if not obj_1.subjs:\n")],
    'a clause object that has a subject and an object of its own',
    'it yields the shorter tuple too',
    '''
row = [('ann', 'PROPN', 'SUBJ', 1), ('think', 'VERB', 'ROOT', -1), ('bob', 'PROPN', 'SUBJ', 3), ('eat', 'VERB', 'OBJ', 1), ('cake', 'NOUN', 'OBJ', 3)]
same(['NCL(cake, be, eaten)', 'PTPTN(ann, think, bob, eat, cake)'], stuples(row))
''')

bug('c26-outer-subjects', 'C26', [
    ('semantics/semantic_tuple_extractor.py',
     "                    subjs_2 = [subj_1]  # e.g. \"I want to sing\"\n",
     "                    subjs_2 = [s for s in verb.subjs if s.tag in NOUN_TAGS]  # e.g. \"I want to sing\"\n")],
    'conjoined subjects of a verb whose clause object has no subject',
    'every subject is also paired with the other ones',
    '''
row = [('ann', 'PROPN', 'SUBJ', 3), ('and', 'CONJ', 'NODEP', -1), ('bob', 'PROPN', 'AND', 0), ('want', 'VERB', 'ROOT', -1), ('to', 'FRAG', 'PART', 5), ('sing', 'VERB', 'OBJ', 3)]
same(['PTPI(ann, want, ann, sing)', 'PTPI(bob, want, bob, sing)'], stuples(row))
''')

bug('c27-leaf', 'C27', [
    ('syntax/fixer.py',
     "        if not node_tree.children(node):\n",
     "        if not node_tree.has_child_via(node, Dep.CPL):\n")],
    'a noun of the adjective dictionary that depends on a noun and has conjuncts but no complement',
    'it becomes an adjective although it is not a leaf',
    """
same(['NCN(cat, be, blue)'], stuples([('cat', 'NOUN', 'SUBJ', 1), ('is', 'VERB', 'ROOT', -1), ('the', 'DET', 'ART', 3), ('blue', 'NOUN', 'PROP', 1)]))
same(['NI(blue cat, sing)'], stuples([('blue', 'NOUN', 'CPL', 2), ('red', 'NOUN', 'AND', 0), ('cat', 'NOUN', 'SUBJ', 3), ('sing', 'VERB', 'ROOT', -1)]))
""")

bug('c27-iprop-obj', 'C27', [
    ('syntax/arg_finder.py',
     "        for o, ip in [(o, ip) for o in obj.aggreg for ip in iprop.aggreg]:\n",
     "        for o, ip in zip(obj.aggreg, iprop.aggreg * len(obj.aggreg)):\n")],
    'a single object with several conjoined naming complements (or several objects with several complements)',
    'the other combinations are lost',
    '''
row = [('ann', 'PROPN', 'SUBJ', 1), ('call', 'VERB', 'ROOT', -1), ('bob', 'PROPN', 'OBJ', 1), ('smart', 'ADJ', 'IPROP', 1), ('and', 'CONJ', 'NODEP', -1), ('funny', 'ADJ', 'AND', 3)]
same(2, sum(t.startswith('PCA(bob, be called') for t in stuples(row)))
''')

bug('c27-marked-prop', 'C27', [
    ('syntax/arg_finder.py',
     "if not tree.has_child_via_set(p, MARKER_DEPS)]:\n", "if not tree.has_child_via_set(prop, MARKER_DEPS)]:\n")],
    'conjoined properties only one of which has a marker',
    'the marker of the first one decides for all of them',
    '''
row = [('ann', 'PROPN', 'SUBJ', 1), ('be', 'VERB', 'ROOT', -1), ('smart', 'ADJ', 'PROP', 1), ('and', 'CONJ', 'NODEP', -1), ('in', 'PREP', 'MARK', 5), ('paris', 'PROPN', 'AND', 2)]
same(['PCA(ann, be, smart)'], stuples(row))
row = [('ann', 'PROPN', 'SUBJ', 1), ('be', 'VERB', 'ROOT', -1), ('in', 'PREP', 'MARK', 3), ('paris', 'PROPN', 'PROP', 1), ('and', 'CONJ', 'NODEP', -1), ('happy', 'ADJ', 'AND', 3)]
same(['PCA(ann, be, happy)'], stuples(row))
''')

bug('c28-xnor', 'C28', [
    ('utils/maths.py',
     "    result = bools[0] == bools[1]\n    for b in bools[2:]:\n        result = result == b\n    return result\n",
     "    return list(bools).count(False) in {0, 2}\n")],
    'four negated words in one tuple',
    'an even number of negations is reported as negative',
    '''
from scrappybara.utils.maths import xnor
same(True, xnor(False, False, False, False))
same(True, xnor(False, True, False, False, False))
same(False, xnor(False, True, False, False))
''')

bug('c28-neg-dup', 'C28', [
    ('syntax/arg_finder.py',
     "                if dep == Dep.NEG:\n                    node.is_aff = False\n",
     "                if dep == Dep.NEG:\n                    node.is_aff = not node.is_aff\n")],
    'a word with two negation children',
    'they cancel out although the word is negated',
    '''
row = [('ann', 'PROPN', 'SUBJ', 3), ('not', 'ADV', 'NEG', 3), ('never', 'ADV', 'NEG', 3), ('sing', 'VERB', 'ROOT', -1)]
same(['PI(ann, NOT sing)'], stuples(row))
''')

bug('c28-iprop-subj', 'C28', [
    ('semantics/semantic_tuple_extractor.py',
     "                is_aff = xnor(subj.is_aff, verb.is_aff, noun.is_aff, iprop.is_aff)\n",
     "                is_aff = xnor(verb.is_aff, noun.is_aff, iprop.is_aff)\n")],
    'a naming complement of a verb with a negated subject',
    'the negation of the subject is ignored',
    '''
row = [('no', 'DET', 'NEG', 1), ('man', 'NOUN', 'SUBJ', 2), ('call', 'VERB', 'ROOT', -1), ('bob', 'PROPN', 'OBJ', 2), ('smart', 'ADJ', 'IPROP', 2)]
same(['PCA(bob, NOT be called, smart)'], [t for t in stuples(row) if t.startswith('PCA')])
''')

bug('c29-not-passive', 'C29', [
    ('semantics/semantic_tuple_extractor.py',
     "        if verb.canon not in self.__not_passive:\n", "        if verb.lemma not in self.__not_passive:\n")],
    'a phrasal verb built on have or get ("get over")',
    'its passive form is missing',
    '''
row = [('ann', 'PROPN', 'SUBJ', 1), ('get', 'VERB', 'ROOT', -1), ('over', 'FRAG', 'PART', 1), ('bob', 'PROPN', 'OBJ', 1)]
same(1, sum(t.startswith('PCL(bob, be,') for t in stuples(row)))
''')

bug('c29-by-original', 'C29', [
    ('syntax/arg_finder.py',
     "        if marker.canon == 'by':\n", "        if marker.original == 'by':\n")],
    'the agent marker written with a capital ("BY", "By")',
    'the agent is not found',
    '''
row = [('cake', 'NOUN', 'SUBJ', 1), ('be', 'VERB', 'ROOT', -1), ('eaten', 'ADJ', 'PROP', 1), ('BY', 'PREP', 'MARK', 4), ('ann', 'PROPN', 'CPL', 2)]
same(True, 'PTN(ann, eat, cake)' in stuples(row))
''')

bug('c29-agent-break', 'C29', [
    ('syntax/arg_finder.py',
     "                if dep in {Dep.PROP, Dep.CPL}:\n", "                if dep in {Dep.PROP, Dep.CPL} and not describee.agents:\n")],
    'conjoined agents',
    'only the first one is kept',
    '''
row = [('cake', 'NOUN', 'SUBJ', 1), ('be', 'VERB', 'ROOT', -1), ('eaten', 'ADJ', 'PROP', 1), ('by', 'PREP', 'MARK', 4), ('ann', 'PROPN', 'CPL', 2), ('and', 'CONJ', 'NODEP', -1), ('bob', 'PROPN', 'AND', 4)]
same([True, True], [t in stuples(row) for t in ('PTN(ann, eat, cake)', 'PTN(bob, eat, cake)')])
''')

bug('c30-chunk-order', 'C30', [
    ('syntax/chunker.py',
     "            nouns.append(_cnoun)\n            _chunk_recursive(_cnoun)\n", "            nouns.insert(0, _cnoun)\n            _chunk_recursive(_cnoun)\n"),
    ('syntax/chunker.py',
     "    nouns.sort(key=lambda x: x.idx)\n", "")],
    'a noun with two compound nouns attached to it',
    'they come out in reverse order',
    '''
row = [('city', 'NOUN', 'CPL', 1), ('bus', 'NOUN', 'CPL', 2), ('stop', 'NOUN', 'SUBJ', 3), ('burn', 'VERB', 'ROOT', -1)]
same(['NI(city bus stop, burn)'], stuples(row))
row = [('city', 'NOUN', 'CPL', 2), ('bus', 'NOUN', 'CPL', 2), ('stop', 'NOUN', 'SUBJ', 3), ('burn', 'VERB', 'ROOT', -1)]
same(['NI(city bus stop, burn)'], stuples(row))
''')

bug('c30-particle-case', 'C30', [
    ('syntax/nodifier.py',
     "                        node.particles.append(tokens[i].lower())\n", "                        node.particles.append(tokens[i])\n")],
    'a particle written with a capital letter',
    'the verb is worded with it',
    '''
same(['PI(ann, give up)'], stuples([('ann', 'PROPN', 'SUBJ', 1), ('give', 'VERB', 'ROOT', -1), ('UP', 'FRAG', 'PART', 1)]))
''')

bug('c30-flat-two', 'C30', [
    ('syntax/nodifier.py',
     "                        flat_tokens = [tokens[i] for i in anc_branch] + [token]\n", "                        flat_tokens = [tokens[i] for i in anc_branch[-2:]] + [token]\n")],
    'a flat name of four tokens or more',
    'its first tokens are lost',
    '''
row = [('anna', 'PROPN', 'SUBJ', 4), ('maria', 'PROPN', 'FLAT', 0), ('de', 'PROPN', 'FLAT', 1), ('luca', 'PROPN', 'FLAT', 2), ('sing', 'VERB', 'ROOT', -1)]
same(['PI(anna maria de luca, sing)'], stuples(row))
''')

bug('c31-marker', 'C31', [
    ('syntax/arg_finder.py',
     "                    not tree.has_child_via_set(verb, MARKER_DEPS)]):\n", "                    not tree.has_child_via(verb, Dep.MARK)]):\n")],
    'a clause with a comparative or indirect marker (CMARK, IMARK) attached to a noun',
    'its relative pronoun is replaced',
    '''
row = [('ann', 'PROPN', 'SUBJ', 1), ('see', 'VERB', 'ROOT', -1), ('dog', 'NOUN', 'OBJ', 1), ('than', 'CONJ', 'CMARK', 5), ('that', 'PRON', 'SUBJ', 5), ('bark', 'VERB', 'CPL', 2)]
same([True, False], [x in stuples(row) for x in ('OI(that, bark)', 'NI(dog, bark)')])
''')

bug('c31-reflexive', 'C31', [
    ('syntax/arg_finder.py',
     "                if dep == Dep.OBJ and parent.tag == Tag.VERB:\n", "                if dep == Dep.OBJ:\n"),
    ('syntax/arg_finder.py',
     "        if pron.canon in self.__reflexive_pronouns:\n            subj = tree.child_via(verb, Dep.SUBJ)\n            if subj:\n",
     "        if pron.canon in self.__reflexive_pronouns:\n            subj = tree.child_via(verb, Dep.SUBJ)\n            if subj and subj.tag != Tag.PRON:\n")],
    'a reflexive object of a verb whose subject is a pronoun',
    'it is not replaced',
    '''
row = [('you', 'PRON', 'SUBJ', 1), ('treat', 'VERB', 'ROOT', -1), ('yourself', 'PRON', 'OBJ', 1)]
same(['OCL(you, be, treated)', 'OTO(you, treat, you)'], stuples(row))
''')

bug('c31-conjuncts', 'C31', [
    ('syntax/arg_finder.py',
     "                        _register_objs(node, parent, tree)\n", "                        node.objs.append(parent)\n")],
    'a relative clause without pronoun on conjoined nouns',
    'the other nouns are not objects of it',
    '''
row = [('cake', 'NOUN', 'ROOT', -1), ('and', 'CONJ', 'NODEP', -1), ('pie', 'NOUN', 'AND', 0), ('ann', 'PROPN', 'SUBJ', 4), ('eat', 'VERB', 'CPL', 0)]
same([True, True], [x in stuples(row) for x in ('PTN(ann, eat, cake)', 'PTN(ann, eat, pie)')])
''')

bug('c32-root-pron', 'C32', [
    ('syntax/arg_finder.py',
     "            if is_cpl:\n                parent = dep_parent[1]\n", "            if is_cpl or (mark is not None and cmark is not None):\n                parent = dep_parent[1]\n")],
    'a root with both a marker and a comparative marker',
    'the analysis raises',
    '''
row = [('than', 'CONJ', 'CMARK', 2), ('in', 'PREP', 'MARK', 2), ('go', 'VERB', 'ROOT', -1), ('ann', 'PROPN', 'SUBJ', 2)]
same(['PI(ann, go)'], stuples(row))
''')

bug('c32-shape', 'C32', [
    ('semantics/semantic_tuple_extractor.py',
     "        for copula, prop in [(c, p) for c, p in noun.copulas_props if p.tag in PROP_TAGS]:\n",
     "        for copula, prop in [(c, p) for c, p in noun.copulas_props if p.tag != Tag.VERB]:\n")],
    'a copula with an adverb, determiner or preposition as property',
    'a property tuple is made of a word that is neither noun nor adjective',
    '''
same([], stuples([('ann', 'PROPN', 'SUBJ', 1), ('be', 'VERB', 'ROOT', -1), ('here', 'ADV', 'PROP', 1)]))
''')

RES = '''
from scrappybara.semantics.argument import Argument
from scrappybara.semantics.semantic_tuple import SemanticTuple
from scrappybara.pipeline.document import Document
from scrappybara.pipeline.sentence import Sentence
'''

bug('c33-code-search', 'C33', [
    ('semantics/semantic_tuple.py',
     "        return any([arg.code == arg_code for arg in self.__args])\n", "        return arg_code in self.code\n")],
    'a search for a string that is not one code (empty, or two codes in a row)',
    'it is found',
    RES + '''
t = SemanticTuple(Argument('ann', 'P'), Argument('eat', 'T'), Argument('cake', 'N'))
same([True, False, False, False], [t.has_any_arg_with_code(c) for c in ('T', 'PT', '', 'A')])
''')

bug('c33-flatten', 'C33', [
    ('semantics/semantic_tuple.py',
     "', '.join([arg.flatten(with_decorators) for arg in self.__args])", "', '.join([str(arg) for arg in self.__args])")],
    'a negative tuple written without decorators',
    'NOT is shown',
    RES + '''
t = SemanticTuple(Argument('ann', 'P'), Argument('sing', 'I', False))
same(['PI(ann, NOT sing)', 'PI(ann, sing)'], [t.flatten(), t.flatten(False)])
''')

bug('c33-doc-order', 'C33', [
    ('pipeline/document.py',
     "        return [stuple for sent in self.sentences for stuple in sent.stuples]\n",
     "        return list(dict.fromkeys([stuple for sent in self.sentences for stuple in sent.stuples]))\n")],
    'a sentence object (or its list of tuples) that appears twice in the document',
    'its tuples are listed once',
    RES + '''
s = Sentence()
s.stuples = [SemanticTuple(Argument('ann', 'P'), Argument('sing', 'I'))]
d = Document()
d.sentences = [s, s]
same(2, len(d.stuples))
''')

bug('c34-lower', 'C34', [
    ('utils/files.py',
     "        return {line.strip() for line in txt_file}\n", "        return {line.strip().lower() for line in txt_file}\n")],
    'a list with a capitalised word',
    'the word is not in the set',
    '''
from scrappybara.utils.files import load_set_from_txt_file
(DATA / 'l.txt').write_text('Paris\\nrome\\n', encoding='utf-8')
same({'Paris', 'rome'}, load_set_from_txt_file('l.txt'))
''')

bug('c34-wordset', 'C34', [
    ('syntax/wordset.py',
     "                if language_model.has_ngram(word):\n", "                if language_model.has_ngram(word, 2):\n")],
    'a word the model has seen once only',
    'its vector is not kept',
    '''
from scrappybara.langmodel.language_model import LanguageModel
from scrappybara.syntax.wordset import Wordset
grams(1, [('cat', 1, .5), ('dog', 2, .5)])
with open(DATA / 'glove.6B.100d.txt', 'w') as f:
    for w in ('cat', 'dog', 'eel'):
        f.write(w + ' 1.5' * 100 + '\\n')
Wordset().save(str(DATA), LanguageModel(1))
w = Wordset().load()
same([1.5, 1.5, 0], [float(w[x][0]) for x in ('Cat', 'DOG', 'eel')])
''')

bug('c34-dict-strip', 'C34', [
    ('utils/files.py',
     "[line.strip().split('\\t') for line in txt_file]", "[line.lower().split() for line in txt_file]")],
    'a table whose values or keys contain blanks or capitals',
    'the table cannot be read, or its content changes',
    '''
from scrappybara.utils.files import load_dict_from_txt_file
(DATA / 'd.txt').write_text('hot dogs\\thot dog\\nMice\\tmouse\\n', encoding='utf-8')
same({'hot dogs': 'hot dog', 'Mice': 'mouse'}, load_dict_from_txt_file('d.txt'))
''')

bug('c35-divide', 'C35', [
    ('utils/mutables.py',
     "        ranges = np.linspace(0, len_list, num=nb_lists + 1)\n        for i in range(len(ranges) - 1):\n            result.append(items[int(ranges[i]):int(ranges[i + 1])])\n",
     "        size = len_list // nb_lists\n        for i in range(nb_lists):\n            result.append(items[i * size:(i + 1) * size if i < nb_lists - 1 else len_list])\n")],
    'a list whose length is not a multiple of the number of pieces',
    'the last piece is larger than the others by more than one item',
    '''
from scrappybara.utils.mutables import divide_list
for n in range(1, 30):
    for k in range(1, 12):
        parts = divide_list(list(range(n)), k)
        same(list(range(n)), [x for p in parts for x in p])
        same(True, max(map(len, parts)) - min(map(len, parts)) <= 1)
''')

bug('c35-thread-slot', 'C35', [
    ('utils/multithreading.py',
     "    for idx, _ in enumerate(items_lists):\n        nb_threads[idx].join()\n        output_items.extend(nb_threads[idx].output_items)\n",
     "    for thread in sorted(nb_threads, key=lambda t: t.is_alive()):\n        thread.join()\n        output_items.extend(thread.output_items)\n")],
    'a thread still running when a later one has already ended',
    'the results of the later thread come first',
    '''
import time
from scrappybara.utils.multithreading import run_multithreads


def slow_first(i):
    if i == 0:
        time.sleep(.3)
    return i


same([0, 1, 2, 3], run_multithreads([0, 1, 2, 3], slow_first, 4))
''')
