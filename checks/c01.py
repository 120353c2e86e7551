"""One document per text, in order, with exactly its own sentences and their tuples."""
from vlib import pipe_env as pe
from vlib.core import Kind

RULE = ('Lists of 0 to 14 texts of 0 to 9 sentences (sentences that name themselves through invented proper nouns, annotated clauses, word salads the networks label at random, empty and over-long sentences, repeated sentences, '
        'repeated texts and texts made of sentences of their neighbours), split by a table or by the real sentence splitter, some calls of up to 4100 sentences and texts of up to 1100, processed with 1 to 40 cores and batches of 1 to 128; the documents are compared, position by position, with what each sentence yields when processed alone. '
        'Non-trivial: at least two sentences with tuples; distinct by case.')
REQUIRE = {'documents': 1500, 'sentences': 3000, 'tuples': 4000, 'self_naming': 800, 'empty_documents': 60, 'empty_calls': 3, 'repeated_texts': 60, 'echoes': 20, 'resplit': 60, 'distinct_nontrivial': 200, 'configurations': 25, 'long_documents': 2, 'huge_calls': 2}
ANCHORS = ['pipeline/pipeline.py', 'pipeline/logic_pipeline.py', 'pipeline/document.py', 'pipeline/sentence.py', 'syntax/parser.py', 'utils/multithreading.py', 'utils/mutables.py']

setup = pe.setup


def _config(rng):
    return {'cores': rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 16, 40]), 'batch': rng.choice([1, 2, 3, 4, 5, 7, 128]), 'gpu': rng.random() < .5, 'chunk': rng.random() < .75}


def _gen(rng, ctx):
    n = rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 9, 12])
    docs = [pe.document(rng) for _ in range(n)]
    labels = ['text %d' % k for k in range(n)]
    for _ in range(rng.choice([0, 0, 1, 2]) if n else 0):
        k = rng.randrange(len(docs))
        at = rng.randrange(len(docs) + 1)
        docs.insert(at, docs[k])
        labels.insert(at, labels[k])  # the very same text again
    for _ in range(rng.choice([0, 0, 1, 2]) if n else 0):
        # A text made of sentences of another one, right after or before it, or anywhere
        k = rng.randrange(len(docs))
        d = docs[k]
        echo = rng.choice([d[-1:], d[:1], d[1:], d[:-1], d + d, d[::-1], rng.sample(d, min(len(d), 2))])
        at = rng.choice([k + 1, k + 1, k, rng.randrange(len(docs) + 1)])
        docs.insert(at, [list(s) for s in echo])
        labels.insert(at, 'echo %d of %s' % (len(docs), labels[k]))
    pool = [s for d in docs for s in d]
    for _ in range(rng.choice([0, 0, 1, 3]) if pool else 0):
        # Sentences that resemble those of other texts
        at = rng.randrange(len(docs) + 1)
        docs.insert(at, [pe.kin(rng, rng.choice(pool)) for _ in range(rng.choice([1, 2, 3]))])
        labels.insert(at, 'kin %d' % len(docs))
    return dict(_config(rng), docs=docs, labels=labels)


def _compare(ctx, case, texts, split, docs):
    env = ctx.env
    ctx.equal(len(texts), len(docs), 'number of documents for %d texts' % len(texts))
    want, got = pe.expected(env, split, case['chunk']), pe.outcome(docs)
    info = {k: case[k] for k in ('cores', 'batch', 'gpu', 'chunk')}
    tuples = 0
    for k, (w, g) in enumerate(zip(want, got)):
        ctx.equal(len(w), len(g), 'number of sentences of document %d' % k, config=info, sentences=split[k])
        for i, (a, b) in enumerate(zip(w, g)):
            ctx.equal(a, b, 'tuples of sentence %d of document %d' % (i, k), config=info, sentence=pe.split_long(split[k])[i])
            tuples += bool(a)
            ctx.count('tuples', len(a))
        ctx.equal([t for s in w for t in s], pe.plain(docs[k].stuples), 'tuples of the whole document %d' % k, config=info)
        ctx.count('sentences', len(w))
        ctx.count('documents')
        ctx.count('long_documents', len(w) > 300)
        ctx.count('empty_documents', not w)
        ctx.count('resplit', any(len(s) > pe.LIMIT for s in split[k]))
    ctx.count('empty_calls', not texts)
    ctx.count('huge_calls', sum(map(len, want)) > 2000)
    ctx.count('repeated_texts', len(texts) - len(set(texts)))
    ctx.count('echoes', sum(1 for a, b in zip(split, split[1:]) if len(b) == 1 and a[-1:] == b))
    ctx.seen('configurations', info)
    if tuples > 1:
        ctx.nontrivial()
        ctx.sample({'texts': len(texts), 'sentences': [len(s) for s in split], 'config': info})
    return got


def _named(ctx, got, sentences):
    """Sentences that name themselves, without any reference run"""
    if any(len(s) > pe.LIMIT for s in sentences):
        return
    for s, tuples in zip(sentences, got):
        if pe.is_svo(s):
            subj, obj = pe.svo_names(s)
            ctx.check(any((w[0].lower(), w[-1].lower()) == (subj, obj) for w, _, _ in tuples), 'the sentence lost its tuple', sentence=' '.join(pe.tokens_of(s)), observed=tuples)
            ctx.check(all({x.lower() for x in w} & {subj, obj} for w, _, _ in tuples), 'the sentence holds a tuple of another one', sentence=' '.join(pe.tokens_of(s)), observed=tuples)
            ctx.count('self_naming')


def _check(ctx, case):
    env = ctx.env
    pe.forget(env)
    texts = pe.prepare(env, case['docs'], case['labels'])
    split = [[pe.tokens_of(s) for s in d] for d in case['docs']]
    docs = pe.pipeline(env, case['cores'], case['batch'], case['gpu'])(list(texts), chunk_common_nouns=case['chunk'])
    got = _compare(ctx, case, texts, split, docs)
    for g, d in zip(got, case['docs']):
        _named(ctx, g, d)


def _gen_real(rng, ctx):
    texts = [pe.real_text(rng) for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))]
    if texts and rng.random() < .3:
        texts.append(rng.choice(texts))
    return dict(_config(rng), texts=texts)


def _check_real(ctx, case):
    from scrappybara.preprocessing.sentencizer import Sentencizer
    env = ctx.env
    pe.forget(env)
    for t in case['texts']:
        pe.learn(env, t['rows'])
    texts = [t['text'] for t in case['texts']]
    sentencize = Sentencizer()
    split = [[list(s) for s in sentencize(t)] for t in texts]
    docs = pe.pipeline(env, case['cores'], case['batch'], case['gpu'], real=True)(texts, chunk_common_nouns=case['chunk'])
    got = _compare(ctx, case, texts, split, docs)
    for g, t in zip(got, case['texts']):
        if t['rows']:
            ctx.equal(len(t['rows']), len(g), 'number of sentences', text=t['text'])
            _named(ctx, g, t['rows'])


def _gen_large(rng, ctx):
    """More sentences than a batch of the default size"""
    docs, total = [], rng.choice([127, 128, 129, 140, 256, 257, 300])
    while total > 0:
        n = min(total, rng.choice([0, 1, 1, 2, 7, 30]))
        docs.append([pe.svo(rng) if rng.random() < .9 else pe.babble(rng, rng.randint(1, 6)) for _ in range(n)])
        total -= n
    return {'docs': docs, 'labels': ['text %d' % k for k in range(len(docs))], 'cores': rng.choice([1, 3, 8]), 'batch': rng.choice([128, 128, 64, 100]), 'gpu': rng.random() < .5, 'chunk': True}


def _gen_huge(rng, ctx):
    """Many more sentences than any internal portion is likely to have"""
    pool = [pe.svo(rng, []) for _ in range(60)] + [pe.clause(rng) for _ in range(20)] + [pe.babble(rng, rng.randint(1, 6)) for _ in range(10)]
    docs, total = [], rng.choice([513, 1001, 1300, 2049, 2500, 4100, 4100])
    while total > 0:
        n = min(total, rng.choice([0, 1, 1, 2, 7, 30, 200, 1100]))
        docs.append([rng.choice(pool) for _ in range(n)])
        total -= n
    return {'docs': docs, 'labels': ['text %d' % k for k in range(len(docs))], 'cores': rng.choice([1, 4, 8]), 'batch': 128, 'gpu': rng.random() < .5, 'chunk': True}


KINDS = {'huge': Kind(_gen_huge, _check, 8, 60), 'large': Kind(_gen_large, _check, 8, 200), 'table': Kind(_gen, _check, 500, 9000), 'splitter': Kind(_gen_real, _check_real, 250, 4000)}
