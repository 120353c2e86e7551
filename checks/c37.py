"""Annotated sentences report their annotation."""
import json

from vlib import gen_trees as gt
from vlib.core import Kind

RULE = ('Random annotated sentences: projective, with arcs exchanged at random so that they cross, chains, stars, tokens without dependency, root anywhere, any words, some longer than the networks accept; every query for every token and pair of tokens, '
        'warnings registered in any order. Non-trivial: at least one pair of crossing arcs.')
REQUIRE = {'sentences': 4000, 'pairs': 100000, 'crossing': 5000, 'touching': 5000, 'leaves': 10000, 'warnings': 5000, 'distinct_nontrivial': 1500, 'nodep': 1000, 'long_sentences': 15}
ANCHORS = ['syntax/labelled_data.py', 'utils/tree.py']


def _gen(rng, ctx):
    rows = [list(r) for r in gt.annotated(rng, rng.choice([51, 70, 120]) if rng.random() < .002 else None)]
    ids = [i for i, r in enumerate(rows) if r[2] != 'NODEP']
    root = [i for i in ids if rows[i][2] == 'ROOT'][0]
    if rng.random() < .75:
        # Any tree: each token hangs from one that is already in
        order = [i for i in ids if i != root]
        rng.shuffle(order)
        inside = [root]
        for i in order:
            rows[i][3] = rng.choice(inside)
            inside.append(i)
    warnings = [[rng.randrange(len(rows)), rng.choice(['Odd tag', 'é « » 日本', '', 'x "y" \\ z', 'two\nlines']), [rng.randrange(len(rows)) for _ in range(rng.randint(0, 3))]] for _ in range(rng.choice([0, 0, 1, 3, 6]))]
    return {'rows': rows, 'warnings': warnings}


def _check(ctx, case):
    from scrappybara.syntax.dependencies import Dep
    from scrappybara.syntax.labelled_data import LabelledSentence
    from scrappybara.syntax.tags import Tag
    rows = case['rows']
    sent = LabelledSentence(7, [tuple(r) for r in rows])
    words = [r[0] for r in rows]
    ctx.count('sentences')
    ctx.count('long_sentences', len(rows) > 50)
    ctx.equal(7, sent.id, 'id')
    ctx.equal(words, list(sent.tokens), 'tokens')
    ctx.equal([words, words], [list(sent), [t for t in sent]], 'iteration')
    ctx.equal([len(words), words[0], words[-1], words[1:]], [len(sent), sent[0], sent[-1], sent[1:]], 'length and items')
    ctx.equal([' '.join(words)] * 2, [str(sent), repr(sent)], 'text')
    ctx.equal([Tag[r[1]] for r in rows], list(sent.tags), 'tags')
    ctx.equal([Dep[r[2]] for r in rows], list(sent.deps), 'dependencies')
    valid = [i for i, r in enumerate(rows) if r[2] != 'NODEP']
    ctx.equal(valid, list(sent.valid_idxs), 'tokens with a dependency')
    ctx.count('nodep', len(rows) - len(valid))
    arcs = {i: rows[i][3] for i in valid if rows[i][2] != 'ROOT'}
    root = [i for i in valid if i not in arcs][0]
    ctx.equal(root, sent.tree.root, 'root')
    ctx.equal(sorted((rows[i][2], p, i) for i, p in arcs.items()), sorted((d.name, p, i) for d, p, i in sent.tree), 'arcs')
    for i in range(len(rows)):
        leaf = i not in arcs.values()
        ctx.equal(leaf, bool(sent.is_leaf(i)), 'is_leaf(%d)' % i)
        ctx.count('leaves', leaf)
    crossing = 0
    for i in valid:
        for j in valid:
            want = False
            if i != root and j != root:
                (a, b), (c, d) = sorted((i, arcs[i])), sorted((j, arcs[j]))
                if len({a, b, c, d}) == 4:
                    want = (a < c < b) != (a < d < b)
                    crossing += want
                else:
                    ctx.count('touching')
            ctx.equal(want, bool(sent.have_crossing_arcs(i, j)), 'have_crossing_arcs(%d, %d)' % (i, j), rows=rows)
            ctx.count('pairs')
    ctx.count('crossing', crossing)
    if crossing:
        ctx.nontrivial(rows)
        ctx.sample(rows)
    # Warnings
    ctx.equal(None, sent.warnings_json, 'warnings of a sentence without any')
    want = {}
    for idx, comment, focus in case['warnings']:
        sent.register_warning(idx, comment, focus)
        want.setdefault(str(idx), []).append({'comment': comment, 'focusIdxs': focus})
        ctx.equal(want, json.loads(sent.warnings_json), 'warnings')
        ctx.count('warnings')
    # A second sentence is not affected
    other = LabelledSentence(8, [tuple(r) for r in rows])
    ctx.equal(None, other.warnings_json, 'warnings of another sentence')
    ctx.equal(words, list(sent.tokens), 'tokens after the queries')


KINDS = {'sentences': Kind(_gen, _check, 30000, 120000)}
