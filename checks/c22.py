"""Parsing under arbitrary predictions: an automaton follows every prediction request."""
import numpy as np

from vlib import faketf, models as M
from vlib.core import Kind

RULE = ('The models answer arbitrary tags, dependencies and transitions (uniform, biased to one transition, all without dependency, several roots) for batches of 1 to 12 sentences of 1 to 50 tokens. A monitor at the '
        'inputs of the models runs the arc-eager automaton of every sentence: each request must be about the current pair of positions of an unfinished sentence with the labels predicted for it; '
        'the resulting trees are compared with the arcs of the automaton and checked for single parents, cycles and labels. Non-trivial: a sentence with all four transitions.')
REQUIRE = {'sentences': 4000, 'predictions': 30000, 'distinct_nontrivial': 500, 'second_parent_refused': 300, 'root_as_child': 300, 'without_tree': 50, 'batches_mixed': 200, 'several_heads': 500}
ANCHORS = ['syntax/parser.py', 'utils/tree.py']


def _gen(rng, ctx):
    n = rng.randint(1, 12)
    sents = []
    for k in range(n):
        size = rng.choice([1, 1, 2, 2, 3, 50]) if rng.random() < .3 else rng.randint(2, 18)
        sents.append(['id' + ''.join(rng.choice('abcdefghijklm') for _ in range(9))] + [rng.choice(['x', 'y', 'zz', 'the']) for _ in range(size - 1)])
    modes = [rng.choice(['uniform', 'uniform', 'left', 'right', 'reduce', 'shift', 'leftright', 'nodep', 'roots', 'rightleft']) for _ in sents]
    return {'sents': sents, 'modes': modes, 'cores': rng.randint(1, 5), 'batch': rng.choice([1, 2, 3, 5, 12, 128]), 'salt': rng.randint(0, 10 ** 9)}


class _Oracle(M.SentenceOracle):

    def __init__(self, salt, modes):
        super().__init__(salt)
        self.modes = modes

    def guess(self, key):
        if key not in self.guesses:
            import random
            rng = random.Random('%s|%r' % (self.salt, key))
            mode = self.modes.get(key, 'uniform')
            p = 1. if mode == 'nodep' and rng.random() < .5 else .9 if mode == 'nodep' else rng.choice([0, .1, .3])
            roots = .5 if mode == 'roots' else .08
            deps = [1 if rng.random() < p else 2 if rng.random() < roots else rng.choice([0] + list(range(3, 25))) for _ in key]
            self.guesses[key] = ([rng.randrange(17) for _ in key], deps)
        return self.guesses[key]

    def trans_guess(self, key, i, j):
        import random
        r = random.Random('%s|%r|%d|%d' % (self.salt, key, i, j))
        mode = self.modes.get(key, 'uniform')
        one = {'left': M.LEFT, 'right': M.RIGHT, 'reduce': M.REDUCE, 'shift': M.SHIFT}.get(mode)
        if one is not None and r.random() < .9:
            return one
        if mode in ('leftright', 'rightleft') and r.random() < .95:
            return r.choice([M.LEFT, M.RIGHT])
        return r.randrange(4)


class _Monitor(object):

    def __init__(self, ctx, oracle):
        self.ctx, self.oracle = ctx, oracle
        self.autos, self.hist = {}, {}

    def on_tags(self, keys, char, word):
        pass

    def aligned(self, key, row, which, what):
        want = self.oracle.guess(key)[which]
        got = [int(x) for x in row[1:1 + len(want)]]
        self.ctx.check(got == want, '%s given to a model are not those predicted for the sentence' % what, sentence=key, expected=want, observed=got)

    def on_deps(self, keys, tags, char, word):
        for key, t in zip(keys, tags):
            self.aligned(key, t, 0, 'tags')
            if key not in self.autos:
                self.autos[key] = M.Automaton(self.oracle.guess(key)[1])
                self.hist[key] = []

    def on_trans(self, keys, tags, deps, char, word, m1, m2):
        ctx = self.ctx
        if len({len(k) for k in keys}) > 1:
            ctx.count('batches_mixed')
        asked = set()
        for key, t, d, a, b in zip(keys, tags, deps, m1, m2):
            ctx.check(key not in asked, 'one batch asks twice about the same sentence', sentence=key)
            asked.add(key)
            self.aligned(key, t, 0, 'tags')
            self.aligned(key, d, 1, 'dependencies')
            auto = self.autos[key]
            i, j = np.flatnonzero(a), np.flatnonzero(b)
            ctx.check(len(i) == 1 and len(j) == 1, 'a mask does not select one position', sentence=key)
            got = (int(i[0]) - 1, int(j[0]) - 1)
            ctx.check(auto.pair == got, 'prediction asked about another pair of positions', sentence=key, expected=auto.pair, observed=got, history=self.hist[key])
            ctx.count('predictions')

    def on_answer(self, key, i, j, t):
        auto = self.autos[key]
        before = len(auto.parent)
        auto.step(t)
        self.hist[key].append((i, j, t))
        if t == M.LEFT and len(auto.parent) == before:
            self.ctx.count('second_parent_refused')
        self.ctx.check(auto.steps <= 2 * len(key), 'more than twice as many predictions as tokens', sentence=key, history=self.hist[key])


def _check(ctx, case):
    from scrappybara.syntax.parser import Parser
    M.set_word_vectors({})
    codes = M.char_codes()
    keys = [M.key_of(s, codes) for s in case['sents']]
    oracle = _Oracle(case['salt'], dict(zip(keys, case['modes'])))
    oracle.junk_padding = case['salt'] % 2 == 0
    oracle.monitor = monitor = _Monitor(ctx, oracle)
    faketf.set_oracle(oracle)
    tags, trees = Parser(case['cores'], case['batch'])([list(s) for s in case['sents']])
    ctx.equal(len(keys), len(tags), 'number of tag lists')
    ctx.equal(len(keys), len(trees), 'number of trees')
    for key, t, tree in zip(keys, tags, trees):
        want_tags, deps = oracle.guess(key)
        auto = monitor.autos[key]
        ctx.check(auto.pair is None, 'parsing ended before the sentence was read', sentence=key, history=monitor.hist[key])
        ctx.equal(want_tags, [int(x) for x in t], 'tags')
        arcs = M.tree_arcs(tree)
        ctx.count('sentences')
        if tree is None:
            ctx.check(not auto.parent, 'no tree although arcs were predicted', sentence=key, arcs=auto.parent)
            ctx.count('without_tree')
            continue
        # Well-formed forest
        listed = [c for n in tree.nodes for _, c in tree.children(n)]
        ctx.equal(len(listed), len(set(listed)), 'a token has two parents', sentence=key, history=monitor.hist[key])
        for child in arcs:
            walk, node = set(), child
            while node in arcs:
                ctx.check(node not in walk, 'cycle', sentence=key, arcs=arcs)
                walk.add(node)
                node = arcs[node][1]
        for idx, dep in enumerate(deps):
            if dep == 1:
                ctx.check(not tree.has_node(idx), 'token without dependency in the tree', sentence=key, token=idx)
            elif idx in arcs:
                ctx.equal(23 if dep == 2 else dep, arcs[idx][0], 'label of token %d' % idx, sentence=key)
                if dep == 2:
                    ctx.count('root_as_child')
        ctx.check(tree.root not in arcs, 'the root has a parent', sentence=key)
        ctx.equal(min({p for _, p in auto.parent.values()} - set(auto.parent)), tree.root, 'root of the tree', sentence=key, arcs=arcs)
        ctx.count('several_heads', len({p for _, p in auto.parent.values()} - set(auto.parent)) > 1)
        ctx.equal(auto.parent, arcs, 'arcs', sentence=key, history=monitor.hist[key])
        if len({h[2] for h in monitor.hist[key]}) == 4:
            ctx.nontrivial([key, monitor.hist[key]])
    ctx.sample({'sentence': case['sents'][0], 'mode': case['modes'][0], 'history': monitor.hist[keys[0]][:12]})


KINDS = {'predictions': Kind(_gen, _check, 4800, 20000)}
