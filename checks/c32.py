"""Any labelled tree: exact multiset of tuples, documented shapes, same at every run."""
import collections
import json
import os

from vlib import core, gen_clauses as gc, gen_trees as gt, logic_env as le
from vlib.core import Kind

RULE = ('Random trees (any labels and tags, 0 to 50 tokens, projective or not), enumerations that yield hundreds of tuples, grammar sentences with labels, tags and attachments changed at random, and the annotated sentences of the test-suite as they are or changed, each run twice, with different '
        'numbers of workers. The oracle is a second implementation of all the extraction rules; tuples with polarity are compared as multisets and their shapes with the documented ones. Non-trivial: at least one tuple; distinct by tree.')
REQUIRE = {'sentences': 8000, 'tuples': 8000, 'distinct_nontrivial': 3000, 'shapes': 100, 'suite': 30, 'nonprojective': 500, 'odd': 2000, 'without_tree': 20, 'many_tuples': 6}
ANCHORS = ['semantics/semantic_tuple_extractor.py', 'syntax/arg_finder.py', 'syntax/nodifier.py', 'syntax/chunker.py', 'syntax/fixer.py']


def setup(ctx):
    le.setup(ctx)
    with open(os.path.join(core.VERIF, 'data', 'annotated.json'), encoding='utf-8') as f:
        ctx.suite = json.load(f)


def _no_star(sample):
    """Flat names are left-to-right chains: any other FLAT arc gets another label"""
    seen = set()
    for i, r in enumerate(sample):
        if r[2] == 'FLAT':
            if r[3] > i or r[3] in seen:
                r[2] = 'CPL'
            seen.add(r[3])
    return sample


def _rows(sample):
    return [list(r) for r in sample]


def _gen_random(rng, ctx):
    samples = []
    for _ in range(6):
        s = gt.annotated(rng)
        if rng.random() < .5:
            for r in s:
                if rng.random() < .5:
                    r[0], r[1] = rng.choice([('eat', 'VERB'), ('baked', 'ADJ'), ('dogs', 'NOUN'), ('who', 'PRON'), ('itself', 'PRON'), ('by', 'PREP'), ('to', 'FRAG'), ('have', 'VERB'), ('red', 'NOUN'), ('is', 'VERB'), ('me', 'PRON')])
        if rng.random() < .3:
            gc.rewire(rng, s, 3)
        samples.append(_no_star(s))
    return {'samples': samples}


def _gen_odd(rng, ctx):
    return {'samples': [_no_star(gc.sentence(rng, gc.BASE, rng.choice([1, 2, 4, 8]), rng.choice([0, 0, 1, 3]))) for _ in range(6)]}


def _gen_suite(rng, ctx):
    rows = _rows(rng.choice(ctx.suite)['sample'])
    gc.mutate(rng, rows, rng.choice([1, 1, 2, 5]))
    gc.rewire(rng, rows, rng.choice([0, 0, 1]))
    return {'samples': [_no_star(rows)]}


_LISTS = gc.profile(depth=1, p_list=.75, p_adj=.03, p_compound=0., p_copula=.1, p_clause=.05, p_neg=.03, p_flat=0., p_subj=1., p_obj=1., p_iobj=.05, p_art=.05, p_mark=0., p_rel=0., p_pp=0., p_naming=0.)


def _gen_lists(rng, ctx):
    """Enumerations of subjects, verbs and objects: hundreds of tuples in a sentence"""
    return {'samples': [_no_star(gc.sentence(rng, _LISTS)) for _ in range(4)]}


def _gen_exact(rng, ctx):
    return {'suite': True}


def _gen_empty(rng, ctx):
    return {'samples': [[[w, rng.choice(gt.TAGS), 'NODEP', -1] for w in 'one two three'.split()[:rng.randint(0, 3)]]]}


def _counter(rows):
    return collections.Counter(rows)


def _compare(ctx, s, expected, got):
    e = _counter((t.words, t.codes, t.negative) for t in expected)
    o = _counter((w, c, n[1] if len(n) > 1 else None) for w, c, n in got)
    for w, c, n in got:
        ctx.check(le.SHAPES.match(c) is not None, 'shape of a tuple', sentence=s, tuple=(w, c))
        ctx.check(all(isinstance(x, str) and x and x == x.lower() for x in w), 'argument that is not a lower-case text', sentence=s, tuple=(w, c))
        ctx.seen('shapes', c)
    ctx.check(e == o, 'tuples', sentence=s, text=le.text(s), missing=dict(e - o), extra=dict(o - e))


def check(ctx, case):
    env = ctx.env
    if case.get('suite'):
        for row in ctx.suite:
            got = [str(t) for t in env.logic.test_sample([tuple(r) for r in row['sample']])]
            ctx.equal(sorted(row['tuples']), sorted(got), 'tuples of an annotated sentence', sentence=le.text(row['sample']))
            ctx.count('suite')
        return
    for s, want, got in le.observe(ctx, case['samples'], 'logic'):
        expected = want()
        _compare(ctx, s, expected, got)
        ctx.count('sentences')
        ctx.count('tuples', len(got))
        ctx.count('many_tuples', len(got) > 200)
        again = [le.plain(t) for t in env.logic.test_sample([tuple(r) for r in s])]
        ctx.equal(got, again, 'tuples of a second run', sentence=s)
        if not any(r[2] == 'ROOT' for r in s):
            ctx.count('without_tree')
            continue
        if not gc.projective(s):
            ctx.count('nonprojective')
        if ctx.kind != 'suite':
            ctx.count('odd')
        if expected:
            ctx.nontrivial(s)
            ctx.sample({'sentence': s, 'tuples': le.show(le.word_level(got))})
    piped = [s for s in case['samples'] if any(r[2] == 'ROOT' for r in s) and le.fits_pipe(s)]
    if piped and ctx.counters['evaluations'] % 3 == 0:
        for cores, batch in ((1, 128), (4, 2)):
            for s, want, got in le.observe(ctx, piped, 'pipe', True, cores, batch):
                _compare(ctx, s, want(), got)
                ctx.count('piped')


KINDS = {'random': Kind(_gen_random, check, 1000, 16000), 'odd': Kind(_gen_odd, check, 1000, 16000), 'suite': Kind(_gen_suite, check, 1600, 20000),
         'lists': Kind(_gen_lists, check, 400, 6000), 'exact': Kind(_gen_exact, check, 8, 8), 'empty': Kind(_gen_empty, check, 100, 400)}
