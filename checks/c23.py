"""Tree queries against the list of registered arcs."""
import collections

from vlib.core import Kind

RULE = ('Random sequences of registrations (trees and forests, also with arcs above the declared root, repeated labels, hashable nodes of several types, some trees more than a hundred nodes wide or deep) with random queries in between, each answered from the plain list of arcs. '
        'Non-trivial: at least three arcs and a node with two labels.')
REQUIRE = {'queries': 50000, 'distinct_nontrivial': 1000, 'deep_chains': 1000, 'unknown_nodes': 1000, 'nested_iterations': 1000, 'root_below': 300, 'very_deep': 100, 'very_wide': 8}
ANCHORS = ['utils/tree.py', 'utils/mutables.py']


def _gen(rng, ctx):
    n = rng.choice([0, 1, 2, 3, 5, 8, 12, 20])
    labels = ['L%d' % i for i in range(rng.choice([1, 2, 3, 5]))]
    kind = rng.choice(['int', 'str', 'tuple'])
    connected = rng.random() < .7
    attached, arcs = [0], []
    for i in range(1, n + 1):
        arcs.append([rng.choice(labels), rng.choice(attached[-3:] if rng.random() < .5 else attached), i])
        attached.append(i)
    if rng.random() < .15:
        # The declared root is put under other nodes
        arcs += [[rng.choice(labels), n + 1, 0]] + ([[rng.choice(labels), n + 2, n + 1]] if rng.random() < .5 else [])
        rng.shuffle(arcs)
        ctx.count('root_below')
    if not connected:
        rng.shuffle(arcs)
        arcs = [a for a in arcs if rng.random() < .8]
    return {'arcs': arcs, 'labels': labels + ['none'], 'kind': kind, 'n': n, 'connected': connected, 'every': rng.choice([1, 3, 50])}


def _gen_large(rng, ctx):
    """Very wide and very deep"""
    n, labels = rng.choice([40, 90, 160]), ['L%d' % i for i in range(rng.choice([1, 2]))]
    one = lambda: labels[0] if rng.random() < .97 else rng.choice(labels)
    how = rng.choice(['star', 'chain', 'both', 'bush'])
    arcs = []
    for i in range(1, n + 1):
        parent = {'star': 0, 'chain': i - 1, 'both': i - 1 if i < n // 2 else rng.choice([0, n // 2 - 1]), 'bush': (i - 1) // 2}[how]
        arcs.append([one(), parent, i])
    return {'arcs': arcs, 'labels': labels + ['none'], 'kind': rng.choice(['int', 'str', 'tuple']), 'n': n, 'connected': True, 'every': 10 ** 6}


def _node(kind, i):
    return i if kind == 'int' else 'n%d' % i if kind == 'str' else ('n', i)


def _query(ctx, tree, arcs, case, root):
    """All queries on all nodes"""
    nodes = [_node(case['kind'], i) for i in range(case['n'] + 3)]
    labels = case['labels']
    parent = {c: (label, p) for label, p, c in arcs}
    kids = collections.defaultdict(list)
    for label, p, c in arcs:
        kids[p].append((label, c))
    inside = {x for _, p, c in arcs for x in (p, c)}
    ctx.equal(1 + len(arcs), len(tree), 'size', arcs=arcs)
    ctx.equal(sorted(map(repr, arcs)), sorted(repr(tuple(a)) for a in tree), 'iteration over arcs')
    pairs = [(a, b) for a in tree for b in tree]
    ctx.equal(len(arcs) ** 2, len(pairs), 'nested iterations over arcs', arcs=arcs)
    ctx.count('nested_iterations')
    connected = not (set(kids) - {root} - set(parent))
    if connected:
        ctx.equal(sorted(map(repr, [root] + list(parent))), sorted(map(repr, tree.nodes)), 'nodes', arcs=arcs)
    for node in nodes:
        if node not in inside:
            ctx.count('unknown_nodes')
        if not (node == root and not arcs):
            ctx.equal(node in inside, bool(tree.has_node(node)), 'membership of %r' % (node,), arcs=arcs)
        up = tree.parent(node)
        ctx.equal(parent.get(node), None if up is None else tuple(up), 'parent of %r' % (node,), arcs=arcs)
        ctx.count('very_wide', len(kids[node]) > 64)
        ctx.equal(sorted(kids[node], key=repr), sorted((tuple(c) for c in tree.children(node)), key=repr), 'children of %r' % (node,), arcs=arcs)
        want = [c for c in kids[parent[node][1]] if c[1] != node] if node in parent else []
        ctx.equal(sorted(want, key=repr), sorted((tuple(c) for c in tree.siblings(node)), key=repr), 'siblings of %r' % (node,), arcs=arcs)
        for label in labels:
            via = [c for lab, c in kids[node] if lab == label]
            ctx.equal(via, list(tree.children_via(node, label)), 'children of %r via %s' % (node, label), arcs=arcs)
            ctx.equal(via[0] if via else None, tree.child_via(node, label), 'first child of %r via %s' % (node, label), arcs=arcs)
            ctx.equal(bool(via), bool(tree.has_child_via(node, label)), 'has_child_via', arcs=arcs, node=node, label=label)
            ctx.equal(node in parent and parent[node][0] == label, bool(tree.has_parent_via(node, label)), 'has_parent_via', arcs=arcs, node=node, label=label)
            anc, cur = [], node
            while cur in parent and parent[cur][0] == label:
                cur = parent[cur][1]
                anc.insert(0, cur)
            ctx.equal(anc, list(tree.ancestors_via(node, label)), 'ancestors of %r via %s' % (node, label), arcs=arcs)
            if len(anc) > 1:
                ctx.count('deep_chains')
            ctx.count('very_deep', len(anc) > 64)
            desc, todo = [], list(via)
            while todo:
                x = todo.pop(0)
                desc.append(x)
                todo.extend(c for lab, c in kids[x] if lab == label)
            got = list(tree.descendants_via(node, label))
            ctx.equal(sorted(map(repr, desc)), sorted(map(repr, got)), 'descendants of %r via %s' % (node, label), arcs=arcs)
            ctx.count('queries', 6)
        for some in (set(labels[:1]), set(labels), set(), {labels[-1]}):
            ctx.equal(any(lab in some for lab, _ in kids[node]), bool(tree.has_child_via_set(node, some)), 'has_child_via_set', arcs=arcs, node=node, labels=some)
            ctx.equal(node in parent and parent[node][0] in some, bool(tree.has_parent_via_set(node, some)), 'has_parent_via_set', arcs=arcs, node=node, labels=some)
        ctx.count('queries', 6)


def _check(ctx, case):
    from scrappybara.utils.tree import Tree
    root = _node(case['kind'], 0)
    tree, arcs = Tree(root), []
    ctx.equal(root, tree.root, 'root')
    for k, (label, p, c) in enumerate(case['arcs']):
        if k % case['every'] == 0:
            _query(ctx, tree, arcs, case, root)
        p, c = _node(case['kind'], p), _node(case['kind'], c)
        tree.register_child(label, p, c)
        arcs.append((label, p, c))
    # Twice: queries do not change the tree
    _query(ctx, tree, arcs, case, root)
    _query(ctx, tree, arcs, case, root)
    by = collections.defaultdict(set)
    for label, p, c in arcs:
        by[p].add(label)
    if len(arcs) > 2 and any(len(v) > 1 for v in by.values()):
        ctx.nontrivial()
        ctx.sample(case)


KINDS = {'tree': Kind(_gen, _check, 8000, 120000), 'large': Kind(_gen_large, _check, 48, 800)}
