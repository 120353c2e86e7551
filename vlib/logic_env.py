"""Runs annotated sentences through the real extraction, by two public routes, and compares with the reference.

Route 'logic': LogicPipeline.test_sample (any tree).  Route 'pipe': a full Pipeline whose networks answer the annotation (projective trees), many
sentences per call, any number of cores and batch size, chunking on or off.
"""
import collections
import random
import re

from vlib import faketf, gen_clauses as gc, gen_trees as gt, lmfiles, models as M, ref_logic as RL, ref_norm as rn

NOUN = '[NPOSU]'
SHAPES = re.compile('^%s(I|[TR]%s|C[NPOSUAL]|T%sI|T%sT%s|T%sC[NPOSUAL])$' % ((NOUN,) * 6))


class Env(object):
    pass


def setup(ctx):
    rng = random.Random('lm/%d/%d' % (ctx.seed, ctx.shard))
    uni = lmfiles.real_unigrams()
    bi = {'i hate', 'they hate'}  # Of the annotated sentences of the test-suite
    for verb in gc.VERBS + gc.LIGHT + gc.CLAUSAL:
        for w in [verb[0]] + ([rng.choice(verb[1:])] if rng.random() < .1 else []):
            bi.update('%s %s' % (h, w) for h in rng.sample(rn.MODALS, 2))
    env = ctx.env = Env()
    env.lm, env.ref = lmfiles.install([uni, lmfiles.distinct_probas(rng, sorted(bi), 1e-7)])
    env.tables = lmfiles.load_tables()
    M.set_word_vectors({})
    from scrappybara.pipeline.logic_pipeline import LogicPipeline
    env.logic = LogicPipeline(env.lm)
    env.oracle = M.SentenceOracle('logic')
    faketf.set_oracle(env.oracle)
    env.texts = {}
    env.pipes = {}
    env.serial = 0


def pipeline(env, cores, batch):
    from scrappybara.pipeline.pipeline import Pipeline
    key = (cores, batch)
    if key not in env.pipes:
        env.pipes[key] = Pipeline(sentencizer=lambda text: env.texts[text], nb_cores=cores, batch_size=batch, use_gpu=bool(cores % 2))
    return env.pipes[key]


def plain(stuple):
    """(words, codes, [negative...])"""
    args = list(stuple)
    return tuple(a.word for a in args), ''.join(a.code for a in args), tuple(not a.is_affirmative for a in args)


def parser_arcs(sample):
    """Arcs in the order the parser finds them"""
    ids = [i for i, r in enumerate(sample) if r[2] != 'NODEP']
    parents = {i: r[3] for i, r in enumerate(sample) if r[3] >= 0}
    root = [i for i in ids if sample[i][2] == 'ROOT'][0]
    trans = M.gold_transitions(parents, root, ids)
    auto = M.Automaton([gt.DEP_CODE[r[2]] for r in sample])
    while auto.pair:
        auto.step(trans[auto.pair])
    return trans, [(gt.DEPS[auto.parent[c][0]], auto.parent[c][1], c) for c in auto.order], root


def fits_pipe(sample):
    return len(sample) <= 49 and sum(r[2] != 'NODEP' for r in sample) > 1 and gc.projective(sample)


def _sizes(ctx, samples):
    """What is unusually large in them"""
    for s in samples:
        heads = collections.Counter(r[3] for r in s if r[2] in ('AND', 'OR'))
        ctx.count('long_lists', max(heads.values(), default=0) > 4)
        ctx.count('long_names', sum(r[2] == 'FLAT' for r in s) > 5)
        ctx.count('far_particles', any(r[2] == 'PART' and abs(r[3] - i) > 9 for i, r in enumerate(s)))


def observe(ctx, samples, route, chunk=True, cores=2, batch=4, **kw):
    """[(sample, expected list of T, observed list)], expected computed with the same order of arcs"""
    env = ctx.env
    out = []
    _sizes(ctx, samples)
    if route == 'logic':
        for s in samples:
            got = [plain(t) for t in env.logic.test_sample([tuple(r) for r in s])]
            out.append((s, lambda s=s, **k: RL.of_sample(s, env.ref, env.tables, **dict(kw, **k)), got))
        return out
    texts, wants = [], []
    env.texts.clear()
    env.oracle.gold.clear()
    env.oracle.decoded.clear()
    for k, s in enumerate(samples):
        env.serial += 1
        s = [['#%d' % env.serial, 'SYM', 'NODEP', -1]] + [[a, b, c, d + 1 if d >= 0 else -1] for a, b, c, d in s]
        trans, arcs, root = parser_arcs(s)
        tokens, tags = [r[0] for r in s], [r[1] for r in s]
        env.oracle.register(tokens, [gt.TAG_CODE[t] for t in tags], [gt.DEP_CODE[r[2]] for r in s], trans)
        text = 'text %d' % env.serial
        texts.append(text)
        env.texts[text] = [tokens]
        wants.append((s, lambda tokens=tokens, tags=tags, arcs=arcs, root=root, **k: RL.analyse(tokens, tags, arcs, root, env.ref, env.tables, **dict(kw, chunking=chunk, **k))))
    faketf.set_oracle(env.oracle)
    pipe = pipeline(env, cores, batch)
    docs = pipe(texts) if chunk else pipe(texts, chunk_common_nouns=False)
    ctx.equal(len(texts), len(docs), 'number of documents')
    for (s, want), doc in zip(wants, docs):
        sents = list(doc)
        ctx.equal(1, len(sents), 'number of sentences of the document', sentence=s)
        out.append((s, want, [plain(t) for t in sents[0]]))
    return out


def gen(profiles, mutate=.15, rewire=0., n=8, filt=None):
    def _gen(rng, ctx):
        route = 'pipe' if rng.random() < .4 else 'logic'
        samples = []
        while len(samples) < n:
            s = gc.sentence(rng, rng.choice(profiles), rng.choice([1, 2, 4]) if rng.random() < mutate else 0, rng.choice([1, 2, 5]) if rng.random() < rewire else 0)
            if (route == 'pipe' and not fits_pipe(s)) or (filt and not filt(s)):
                continue
            samples.append(s)
        return {'samples': samples, 'route': route, 'chunk': rng.random() < .8, 'cores': rng.choice([1, 2, 3, 8]), 'batch': rng.choice([1, 3, 4, 128])}
    return _gen


def run(ctx, case, **kw):
    return observe(ctx, case['samples'], case['route'], case['chunk'] or case['route'] == 'logic', case['cores'], case['batch'], **kw)


def text(sample):
    return ' '.join(r[0] for r in sample)


def word_level(observed):
    return collections.Counter((w, c) for w, c, _ in observed)


def show(counter):
    return ['%s(%s) x%d' % (c, ', '.join(w), n) for (w, c), n in sorted(counter.items())]


POSSIBLE = {
    'pred': lambda w, c: bool(re.match('^%s(I|[TR]%s)$' % (NOUN, NOUN), c)),
    'clause': lambda w, c: len(c) > 3,
    'prop': lambda w, c: len(c) == 3 and c[1] == 'C',
    'passive': lambda w, c: len(c) == 3 and c[1:] == 'CL' and w[1] == 'be',
    'active': lambda w, c: len(c) == 3 and c[1] == 'T',
}


def compare(ctx, sample, expected, observed, families, also=None):
    """Word level comparison of the tuples of some families"""
    e, o = collections.Counter((t.words, t.codes) for t in expected), word_level(observed)
    mine = {(t.words, t.codes) for t in expected if t.family in families}
    bad = [t for t in mine if o[t] != e[t]]
    for t in o:
        if o[t] > e[t] and t not in mine:
            if any(POSSIBLE[f](*t) for f in families) or (also and also(*t)):
                bad.append(t)
    ctx.count('assertions')
    if bad:
        ctx.fail('tuples differ from the rules', sentence=sample, text=text(sample), differing=show(collections.Counter({t: 1 for t in bad})), expected=show(e), observed=show(o))
    return mine


def observe_tuples(ctx, sample, expected, families):
    """Evidence"""
    mine = [t for t in expected if t.family in families]
    ctx.count('sentences')
    for t in mine:
        ctx.count('tuples_' + t.family)
        ctx.seen('shapes', t.codes)
    return mine
