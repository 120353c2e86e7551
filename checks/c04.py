"""Shared and reused components against pristine ones."""
import contextlib
import copy
import json
import random
import shutil
import threading

from vlib import gen_clauses as gc, gen_text as gtx, gen_words as gw, lmfiles, logic_env as le, models as M, pipe_env as pe, pristine, ref_norm as rn
from vlib.core import Kind

RULE = ('Histories of 10 to 60 calls, drawn from small pools so that the same texts, words and tokens return with other arguments (tags, contexts, limits, flags, annotations), on one tokenizer, sentence splitter, language model, standardizer, inflector, lemmatizer and pipeline, in half of the histories next to a second set of objects with other language data; '
        'returned lists are destroyed by the caller between calls. Then the same calls from 2 to 4 threads on shared objects, interleaved line by line by a seeded scheduler or under injected noise. '
        'Every answer must be the one of a process that has never done anything else, and the arguments and tables must come out unmodified. Non-trivial: a case with at least 10 calls; distinct by history.')
REQUIRE = {'calls': 5000, 'calls_tok': 500, 'calls_sent': 500, 'calls_lm': 800, 'calls_lemma': 400, 'calls_std': 150, 'calls_pp': 150, 'calls_variant': 600, 'calls_sample': 100, 'calls_pipe': 100, 'threaded_calls': 1500, 'threaded_runs': 100, 'pristine_answers': 2500, 'distinct_nontrivial': 100}
ANCHORS = ['preprocessing/tokenizer.py', 'preprocessing/sentencizer.py', 'langmodel/language_model.py', 'normalization/lemmatizer.py', 'pipeline/logic_pipeline.py', 'pipeline/pipeline.py', 'utils/tree.py', 'syntax/parser.py']
TAGS = ['VERB', 'NOUN', 'ADJ', 'ADV', 'PROPN', 'NUM', 'PRON']
WORDS = sorted({w for v in gc.VERBS + gc.LIGHT + gc.CLAUSAL for w in v} | {w for n in gc.NOUNS for w in n} | set(gc.ADJS + gc.PPS) | {'left', 'saw', 'found', 'felt', 'meeting', 'rose', 'better', 'best', 'wound', 'leaves', "'s", 'lower', 'closer', 'organised', 'towels'})
SPELLINGS = ['colour', 'color', 'humour', 'humor', 'organise', 'organize', 'analyse', 'analyze', 'defence', 'defense', 'catalog', 'catalogue', 'traveled', 'travelled', 'leukaemia', 'leukemia', 'oestrogen', 'estrogen', 'licence', 'license', 'modelling', 'modeling']
STYLED = SPELLINGS + ['colours', 'colors', 'coloured', 'organised', 'organizing', 'analyses', 'defences', 'defenses', 'catalogs', 'catalogues', 'licences', 'humours']
LEMMAS = ['format', 'visit', 'stop', 'travel', 'plan', 'open', 'fit', 'rot', 'admit', 'offer', 'go', 'do', 'take', 'make', 'write', 'carry', 'bake', 'undo', 'die', 'run']
PREFIXED = ['undone', 'co-undone', 'reundone', 'redid', 'co-redid', 'retaken', 'mistaken', 'unmistaken', 're-mistaken', 'outgrown', 'coredone', 'disoutgrown', 'grandchildren', 'subgrandchildren', 'sub-grandchildren', 'unbetter', 'unmade', 'reunmade', 'rewritten',
            'misrewritten', 'submen', 'grandmen']


class Objects(object):
    """The components, made when first used; two variants of everything that knows language data"""

    def __init__(self, oracle):
        self.oracle = oracle
        self.made = {}
        self.texts = {}
        self.tables = {}
        self.lock = threading.RLock()

    def get(self, name, variant='A'):
        with self.lock:
            if (name, variant) not in self.made:
                self.made[name, variant] = self._make(name, variant)
            return self.made[name, variant]

    def table(self, variant):
        if variant not in self.tables:
            self.tables[variant] = copy.deepcopy(_TABLES[variant])
        return self.tables[variant]

    def _make(self, name, variant):
        if name == 'tok':
            from scrappybara.preprocessing.tokenizer import Tokenizer
            return Tokenizer()
        if name == 'sent':
            from scrappybara.preprocessing.sentencizer import Sentencizer
            return Sentencizer()
        if name == 'lm':
            from scrappybara.langmodel.language_model import LanguageModel
            _use_files(variant)
            return LanguageModel(1, 1, 1)
        if name == 'std':
            from scrappybara.normalization.standardizer import Standardizer
            return Standardizer(self.get('lm', variant))
        if name == 'pp':
            from scrappybara.normalization.inflector import Inflector
            return Inflector(self.get('lm', variant), self.table(variant)['lemma_pp'])
        if name == 'lemma':
            from scrappybara.normalization.lemmatizer import Lemmatizer
            t = self.table(variant)
            return Lemmatizer(self.get('lm', variant), t['adjs'], t['pret'], t['pp'], t['plur'], t['comp'], t['sup'], t['lemma_pp'])
        if name == 'logic':
            from scrappybara.pipeline.logic_pipeline import LogicPipeline
            return LogicPipeline(self.get('lm', variant))
        from scrappybara.pipeline.pipeline import Pipeline
        _use_files(variant)
        return Pipeline(sentencizer=lambda text: self.texts[text], nb_cores=name[1], batch_size=name[2])


_TABLES = {}  # variant => irregular forms and word lists


def _use_files(variant):
    """The model files on disk are those of the variant"""
    root = lmfiles.langmodel_dir()
    for n in (1, 2, 3):
        shutil.copyfile('%s.%s/%d_grams.txt' % (root, variant, n), '%s/%d_grams.txt' % (root, n))


def _rows(op):
    return [tuple(r) for r in op]


def call(objects, op):
    """(plain answer, arguments before, arguments after, list to destroy)"""
    kind, variant = op[0].split('@')
    if kind == 'tok':
        out = objects.get('tok')(op[1])
        return list(out), None, None, out
    if kind == 'sent':
        out = objects.get('sent')(op[1])
        return [list(s) for s in out], None, None, out
    lm = objects.get('lm', variant) if kind in ('next', 'best_token', 'best_ngram', 'has', 'in', 'top') else None
    if kind == 'next':
        out = lm.next_word(op[1], *op[2:])
        return [list(t) for t in out], None, None, out
    if kind == 'best_token':
        return lm.best_token(*op[1], **dict(zip(('before', 'after'), op[2:]))), None, None, None
    if kind == 'best_ngram':
        return lm.best_ngram(*op[1]), None, None, None
    if kind == 'has':
        return lm.has_ngram(*op[1:]), None, None, None
    if kind == 'in':
        return [op[1] in lm, len(lm)], None, None, None
    if kind == 'top':
        out = lm.top_ngrams(*op[1:])
        return [list(t) for t in out], None, None, out
    if kind == 'std':
        return objects.get('std', variant)(op[1]), None, None, None
    if kind == 'pp':
        return objects.get('pp', variant).past_participle(op[1]), None, None, None
    if kind == 'lemma':
        from scrappybara.syntax.tags import Tag
        lemma, suffix = objects.get('lemma', variant)(op[1], getattr(Tag, op[2]))
        return [lemma, None if suffix is None else suffix.name], None, None, None
    if kind == 'sample':
        rows = _rows(op[1])
        before = copy.deepcopy(rows)
        out = objects.get('logic', variant).test_sample(rows)
        return [le.plain(t) for t in out], before, rows, out
    texts = [pe.label(_ENV, t) for t in op[1]]
    sents = [objects.texts[t] for t in texts]
    before = copy.deepcopy([texts, sents])
    docs = objects.get(('pipe', op[3], op[4]), variant)(texts, chunk_common_nouns=op[2])
    return pe.outcome(docs), before, [texts, sents], docs


def _parts(out):
    """Lists handed out"""
    for x in out if isinstance(out, list) else ():
        if isinstance(x, list):
            yield x
        elif hasattr(x, 'sentences') and isinstance(x.sentences, list):
            yield x.sentences
            for s in x.sentences:
                if isinstance(s.stuples, list):
                    yield s.stuples


def _distinct(ctx, op, out):
    """No list is handed out twice: a caller who changes one would change the other"""
    ids = [id(x) for x in _parts(out)]
    ctx.check(len(ids) == len(set(ids)), 'parts of the answer are one and the same list', call=op)


def _destroy(out):
    """What a caller may do with what it got"""
    if isinstance(out, list):
        for x in out:
            if isinstance(x, list):
                del x[:]
            elif hasattr(x, 'sentences') and isinstance(x.sentences, list):
                for s in x.sentences:
                    if isinstance(s.stuples, list):
                        del s.stuples[:]
                del x.sentences[:]
        del out[:]


def _answer(request):
    """In a pristine process"""
    op, known = request
    objects = Objects(None)
    objects.texts = _install(known)
    return json.loads(json.dumps(call(objects, op)[0]))


def _install(docs):
    """Teaches the networks, returns {text: sentences}"""
    env = _ENV
    env.texts.clear()
    env.oracle.gold.clear()
    env.oracle.guesses.clear()
    pe.prepare(env, docs)
    return {t: [list(s) for s in v] for t, v in env.texts.items()}


_ENV = pe.Env()


def setup(ctx):
    rng = random.Random('c04/%d/%d' % (ctx.seed, ctx.shard))
    pool = sorted(set(WORDS) | set(SPELLINGS) | set(LEMMAS) | {p for w in LEMMAS for p in (w + 'ed', w + w[-1] + 'ed')})
    bi = {'%s %s' % (rng.choice(pool), rng.choice(pool[:25])) for _ in range(400)} | {'%s %s' % (m, v[0]) for v in gc.VERBS for m in rn.MODALS[:2]}
    tri = {'%s %s' % (b, rng.choice(pool)) for b in rng.sample(sorted(bi), 200)}
    tables = lmfiles.load_tables()
    for variant in 'AB':
        part = lambda grams, p: sorted(g for g in grams if rng.random() < p)
        lmfiles.install([lmfiles.distinct_probas(rng, part(pool, .7)), lmfiles.distinct_probas(rng, part(bi, .8), 1e-7), lmfiles.distinct_probas(rng, part(tri, .8), 1e-8)])
        shutil.copytree(lmfiles.langmodel_dir(), '%s.%s' % (lmfiles.langmodel_dir(), variant))
        _TABLES[variant] = copy.deepcopy(tables)
        if variant == 'B':
            for t in _TABLES['B'].values():  # other exceptions to the rules
                for key in sorted(t):
                    if rng.random() < .3:
                        t.discard(key) if isinstance(t, set) else t.pop(key)
    ctx.pool, ctx.bi, ctx.tri = pool, sorted(bi), sorted(tri)
    M.set_word_vectors({})
    import scrappybara.normalization.lemmatizer
    import scrappybara.pipeline.pipeline
    _ENV.serial, _ENV.texts, _ENV.alone, _ENV.pipes, _ENV.hook = 0, {}, {}, {}, None
    _ENV.oracle = pe.Oracle('c04/%d' % ctx.seed)
    pe.use(_ENV)
    ctx.server = pristine.Server(_answer)


def _ops(rng, ctx, n, kinds, docs, method=None):
    """Calls from small pools, those of the language model of one method if asked for"""
    texts = [gtx.hostile(rng) for _ in range(rng.randint(2, 5))]
    texts += [rng.choice(texts) + ' ' + gtx.hostile(rng, max_frags=3) for _ in range(2)]
    words = rng.sample(WORDS, 6) + [gw.affix(rng, gw.stem(rng)) for _ in range(2)] + rng.sample(PREFIXED, 2)
    irregular = rng.choice(PREFIXED)
    words += [w for w in PREFIXED if w.endswith(irregular) or irregular.endswith(w)]
    variants = rng.choice(['A', 'A', 'AB', 'AB'])
    cands = rng.sample(ctx.pool, 5)
    styled, lemmas = rng.sample(STYLED, 6), rng.sample(LEMMAS, 6)
    grams = rng.sample(ctx.bi, 4) + rng.sample(ctx.tri, 3) + cands
    contexts = ['', None] + [' '.join(g.split()[:-1]) for g in grams[:7]] + [g.split()[-1] for g in grams[:4]]
    samples = []
    for _ in range(3):
        s = gc.sentence(rng, pe.PROFILE, 0, 0)
        samples.append(s)
        t = copy.deepcopy(s)
        for _ in range(2):
            i = rng.randrange(len(t))
            t[i][1] = rng.choice(['NOUN', 'VERB', 'ADJ', 'PROPN'])
        samples.append(t)  # the same tokens, other tags
        u = copy.deepcopy(s)
        gc.mutate(rng, u, 1)
        samples.append(u)
    out = []
    for _ in range(n):
        kind = rng.choice(kinds)
        if kind in ('tok', 'sent'):
            op = [kind, rng.choice(texts)]
        elif kind == 'lm':
            kind = method or rng.choice(['next', 'next', 'best_token', 'best_token', 'best_ngram', 'has', 'in', 'top'])
            if kind == 'next':
                op = [kind, rng.choice(contexts[2:])] + rng.choice([[], [1], [2], [None]])
            elif kind == 'best_token':
                op = [kind, rng.sample(cands, rng.randint(1, 3)), rng.choice(contexts[2:] + ['']), rng.choice(contexts[2:] + [''])]
            elif kind == 'best_ngram':
                op = [kind, rng.sample(grams, rng.randint(1, 4))]
            elif kind == 'has':
                op = [kind, rng.choice(grams)] + rng.choice([[], [1], [4], [6], [0]])
            elif kind == 'in':
                op = [kind, rng.choice(grams)]
            else:
                op = [kind, rng.randint(1, 3)] + rng.choice([[], [1], [5]])
        elif kind == 'lemma':
            word = rng.choice(words)
            op = [kind, word, rng.choice(TAGS[:3] if word in PREFIXED else TAGS)]
        elif kind == 'std':
            op = [kind, rng.choice(styled)]
        elif kind == 'pp':
            op = [kind, rng.choice(lemmas)]
        elif kind == 'sample':
            op = [kind, rng.choice(samples)]
        else:
            op = [kind, ['text %d' % rng.randrange(len(docs)) for _ in range(rng.choice([0, 1, 1, 2, 4]))], rng.random() < .5, rng.choice([1, 2, 4]), rng.choice([1, 3, 128])]
        op[0] += '@' + ('A' if kind in ('tok', 'sent') else rng.choice(variants))
        out.append(op)
    return out


def _gen(rng, ctx):
    docs = [pe.document(rng, .05, (0, 1, 1, 2, 3)) for _ in range(3)]
    kinds = rng.choice([['tok', 'sent'], ['lm', 'lemma', 'std', 'pp'], ['std', 'pp', 'lemma'], ['tok', 'sent', 'lm', 'lemma', 'std', 'pp', 'sample', 'pipe'], ['sample', 'pipe'], ['tok'], ['sent'], ['lm'], ['lemma'], ['std'], ['pp']])
    n = rng.choice([10, 20, 40]) if kinds != ['sample', 'pipe'] else rng.choice([6, 10, 16])
    return {'docs': docs, 'ops': _ops(rng, ctx, n, kinds, docs)}


def _expect(ctx, op, docs):
    """Only what the call needs goes with the request"""
    answer = ctx.server.ask((op, docs if op[0].startswith('pipe') else []))
    ctx.count('pristine_answers')
    return answer


def _judge(ctx, op, docs, answer, error, **info):
    want = _expect(ctx, op, docs)
    if want[0] == 'error':
        ctx.check(error is not None, 'a call that fails in a pristine process succeeded', call=op, pristine=want[1], observed=answer, **info)
        return
    if error is not None:
        ctx.fail('a call that succeeds in a pristine process failed', call=op, error=repr(error), **info)
    ctx.equal(want[1], json.loads(json.dumps(answer)), 'the answer depends on other calls', call=op, **info)
    ctx.count('calls')
    kind, variant = op[0].split('@')
    ctx.count('calls_%s' % (kind if kind in ('tok', 'sent', 'lemma', 'std', 'pp', 'sample', 'pipe') else 'lm'))
    ctx.count('calls_variant', variant == 'B')


def _attempt(objects, op):
    try:
        return call(objects, op) + (None,)
    except Exception as e:
        return None, None, None, None, e


def _tables_kept(ctx, objects):
    for variant, tables in objects.tables.items():
        for name, t in tables.items():
            ctx.check(t == _TABLES[variant][name], 'a table given by the caller was modified', table=name, changed=[str(x) for x in set(t if isinstance(t, set) else t.items()) ^ set(_TABLES[variant][name] if isinstance(t, set) else _TABLES[variant][name].items())][:5])


def _check(ctx, case):
    ctx.server.known.clear()
    objects = Objects(_ENV.oracle)
    objects.texts = _install(case['docs'])
    for k, op in enumerate(case['ops']):
        answer, before, after, out, error = _attempt(objects, op)
        ctx.equal(before, after, 'the call modified its arguments', call=op)
        _judge(ctx, op, case['docs'], answer, error, position=k)
        _distinct(ctx, op, out)
        _destroy(out)
    _tables_kept(ctx, objects)
    if len(case['ops']) >= 10:
        ctx.nontrivial(case['ops'])
        ctx.sample({'calls': len(case['ops']), 'first': [str(o)[:120] for o in case['ops'][:4]]})


def _gen_threads(rng, ctx):
    docs = [pe.document(rng, .02, (1, 1, 2)) for _ in range(3)]
    kinds = rng.choice([['tok'], ['sent'], ['sent', 'tok'], ['lm'], ['lm'], ['lm'], ['lemma'], ['lm', 'lemma', 'tok'], ['std', 'pp', 'lemma'], ['std'], ['pp'], ['sample'], ['sample'], ['sample', 'pipe'], ['pipe']])
    n = rng.choice([2, 3, 4])
    heavy = 'pipe' in kinds or 'sample' in kinds
    per = rng.choice([2, 3]) if heavy else rng.choice([3, 10, 30])
    ops = _ops(rng, ctx, n * per, kinds, docs, rng.choice([None, 'next', 'best_token', 'best_ngram', 'has', 'top']))
    return {'docs': docs, 'threads': [ops[i * per:(i + 1) * per] for i in range(n)], 'noise': rng.choice(['sched', 'sched', 'jitter']), 'seed': rng.randint(0, 10 ** 9), 'p': rng.choice([.02, .1, .3, .6])}


def _gen_analysis(rng, ctx):
    """Sentences analysed at the same time by one object"""
    n, per = rng.choice([2, 3]), rng.choice([3, 5])
    ops = _ops(rng, ctx, n * per, ['sample'], [])
    return {'docs': [], 'threads': [ops[i * per:(i + 1) * per] for i in range(n)], 'noise': 'sched', 'seed': rng.randint(0, 10 ** 9), 'p': rng.choice([.05, .2, .4])}


def _check_threads(ctx, case):
    from vlib import sched
    ctx.server.known.clear()
    objects = Objects(_ENV.oracle)
    objects.texts = _install(case['docs'])
    for ops in case['threads']:
        for op in ops:  # the objects exist, the calls are concurrent
            kind, variant = op[0].split('@')
            objects.get({'sample': 'logic', 'pipe': ('pipe',) + tuple(op[3:5])}.get(kind, kind if kind in ('tok', 'sent', 'lemma', 'std', 'pp') else 'lm'), variant)
    results = [[None] * len(ops) for ops in case['threads']]
    start = threading.Barrier(len(case['threads']))

    def work(k):
        start.wait()
        for i, op in enumerate(case['threads'][k]):
            if s and case['noise'] == 'jitter':
                s.point(-1)
            results[k][i] = _attempt(objects, op)

    s = sched.Scheduler(case['seed'], case['p'], only=sched.some_files(random.Random(case['seed'])), max_points=8000) if case['noise'] == 'sched' else sched.Jitter(case['seed'])
    with s:
        threads = [threading.Thread(target=work, args=(k,)) for k in range(len(case['threads']))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    for k, ops in enumerate(case['threads']):
        for i, op in enumerate(ops):
            answer, before, after, _, error = results[k][i]
            ctx.equal(before, after, 'a concurrent call modified its arguments', call=op)
            _judge(ctx, op, case['docs'], answer, error, thread=k, noise=case['noise'], seed=case['seed'])
            ctx.count('threaded_calls')
    _tables_kept(ctx, objects)
    ctx.count('threaded_runs')
    if case['noise'] == 'sched':
        ctx.seen('interleavings', s.signature)
        ctx.count('switches', s.switches)
    ctx.nontrivial([case['threads'], case['seed']])


KINDS = {'history': Kind(_gen, _check, 200, 3500), 'threads': Kind(_gen_threads, _check_threads, 720, 8000), 'analysis': Kind(_gen_analysis, _check_threads, 320, 5000)}
