"""Annotation -> transitions -> parser gives the annotation back."""
from vlib import faketf, gen_trees as gt, models as M
from vlib.core import Kind

RULE = ('Random projective dependency trees (1 to 50 tokens, tokens without dependency anywhere, every label and tag, every shape: chains, stars, left and right branching), whose '
        'transitions derived by the real code are predicted to the real parser in batches. '
        'Non-trivial: a tree with both left and right arcs and at least one REDUCE.')
REQUIRE = {'sentences': 4000, 'distinct_nontrivial': 1500, 'arcs': 20000, 'with_nodep': 1000, 'full_length': 30, 'tagged': 2000, 'empty_sentences': 300}
ANCHORS = ['syntax/labelled_data.py', 'syntax/parser.py', 'syntax/transitions.py', 'syntax/tagger.py']


def _gen(rng, ctx):
    return {'samples': [gt.annotated(rng) for _ in range(rng.randint(1, 10))], 'cores': rng.randint(1, 4), 'batch': rng.randint(1, 7), 'junk': rng.random() < .5}


def _gen_shape(rng, ctx):
    """Extreme shapes"""
    samples = []
    for _ in range(6):
        n = rng.randint(2, 12)
        kind = rng.randrange(5)
        sample = gt.annotated(rng, n, p_nodep=0.)
        for i in range(n):
            sample[i][2], sample[i][3] = rng.choice(gt.IN_TREE), -1
        if kind == 0:  # right chain
            root, parent = 0, lambda i: i - 1
        elif kind == 1:  # left chain
            root, parent = n - 1, lambda i: i + 1
        elif kind == 2:  # star
            root = rng.randrange(n)
            parent = lambda i: root
        elif kind == 3:  # comb: arcs long then short
            root = 0
            parent = lambda i: 0 if i % 2 else (i + 1 if i + 1 < n else 0)
        else:  # two chains away from the root
            root = rng.randrange(n)
            parent = lambda i: i + 1 if i < root else i - 1
        for i in range(n):
            sample[i][3] = -1 if i == root else parent(i)
        sample[root][2] = 'ROOT'
        samples.append(sample)
    return {'samples': samples, 'cores': 2, 'batch': 3, 'junk': False}


def _check(ctx, case):
    from scrappybara.syntax.labelled_data import LabelledSentence
    from scrappybara.syntax.parser import Parser
    from scrappybara.syntax.tagger import Tagger
    M.set_word_vectors({})
    oracle = M.SentenceOracle('c21')
    oracle.junk_padding = case['junk']
    faketf.set_oracle(oracle)
    sents = []
    for k, sample in enumerate(case['samples']):
        sent = LabelledSentence(k, [tuple(r) for r in sample])
        trans = {(i, j): int(t) for i, j, t in sent.transitions}
        ctx.equal(len(trans), len(sent.transitions), 'a pair of positions has two transitions', sample=sample)
        oracle.register([r[0] for r in sample], [gt.TAG_CODE[r[1]] for r in sample], [gt.DEP_CODE[r[2]] for r in sample], trans)
        sents.append([r[0] for r in sample])
        ctx.equal(gt.arcs(sample), M.tree_arcs(sent.tree), 'tree of the annotated sentence', sample=sample)
        if len({t for t in trans.values()} & {0, 1, 2}) == 3:
            ctx.nontrivial(sample)
    tags, trees = Parser(case['cores'], case['batch'])(sents)
    ctx.equal(len(sents), len(tags), 'number of tag lists')
    ctx.equal(len(sents), len(trees), 'number of trees')
    for sample, t, tree in zip(case['samples'], tags, trees):
        ctx.equal([r[1] for r in sample], [x.name for x in t], 'tags from the parser', sample=sample)
        expected = gt.arcs(sample)
        ctx.equal(expected, M.tree_arcs(tree), 'tree rebuilt by the parser', sample=sample)
        if expected:
            ctx.equal(gt.root(sample), tree.root, 'root', sample=sample)
            ctx.equal(sorted([tree.root] + list(expected)), sorted(tree.nodes), 'nodes of the tree', sample=sample)
        else:
            ctx.check(tree is None or (len(tree) == 1 and tree.root == gt.root(sample)), 'tree of a single token', sample=sample)
        ctx.count('sentences')
        ctx.count('arcs', len(expected))
        if any(r[2] == 'NODEP' for r in sample):
            ctx.count('with_nodep')
        if len(sample) == 50:
            ctx.count('full_length')
    empty = len(sents[0]) % 3 == 0
    if empty:
        # A sentence of no token among the others
        oracle.register([], [], [], {})
        tags, trees = Parser(case['cores'], case['batch'])(sents[:1] + [[]] + sents[1:])
        ctx.equal([[r[1] for r in s] for s in case['samples'][:1] + [[]] + case['samples'][1:]], [[x.name for x in t] for t in tags], 'tags from the parser, with an empty sentence')
        ctx.equal([gt.arcs(s) for s in case['samples'][:1] + [[]] + case['samples'][1:]], [M.tree_arcs(t) for t in trees], 'trees from the parser, with an empty sentence')
        sents.append([])
        ctx.count('empty_sentences')
    tagged = Tagger().tag(sents)
    ctx.equal(len(sents), len(tagged), 'number of tag lists from the tagger')
    if empty:
        ctx.equal([], list(tagged[-1]), 'tags of an empty sentence')
    for sample, t in zip(case['samples'], tagged):
        ctx.equal([r[1] for r in sample], [x.name for x in t], 'tags from the tagger', sample=sample)
        ctx.count('tagged')
    ctx.sample({'sample': case['samples'][0], 'cores': case['cores'], 'batch': case['batch']})


KINDS = {'random': Kind(_gen, _check, 3600, 16000), 'shape': Kind(_gen_shape, _check, 1200, 4800)}
