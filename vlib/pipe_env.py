"""Whole pipeline under observation: texts made of identifiable sentences, what each must yield, under any configuration.

A sentence of a case is a list of rows [token, tag, dep, parent] (the networks then answer the annotation) or a list of tokens (the networks answer
pseudo-random labels that depend on the tokens only).
"""
import random

from vlib import faketf, gen_clauses as gc, gen_text as gtx, gen_trees as gt, lmfiles, logic_env as le, models as M, ref_norm as rn, sched

SPLITTERS = [':', '"', ';', '(', ')', '[', ']', '{', '}', '-']
LIMIT = 50
PROFILE = gc.profile()


class Env(object):
    pass


class Oracle(M.SentenceOracle):
    """No FLAT star in the labels it makes up"""

    def guess(self, key):
        if key not in self.gold and key not in self.guesses:
            rng = random.Random('%s|%r' % (self.salt, key))
            tags = [rng.choice([1, 3, 8, 8, 8, 9, 11, 12, 14, 14, 14, 15, 2, 5]) for _ in key]
            deps = [rng.choice([1, 3, 8, 8, 13, 14, 17, 18, 18, 18, 19, 21, 22, 22, 24, 24, 24, 2]) for _ in key]
            self.guesses[key] = (tags, deps)
        return super().guess(key)


def setup(ctx):
    rng = random.Random('pipe/%d/%d' % (ctx.seed, ctx.shard))
    env = ctx.env = Env()
    bi = {'%s %s' % (rng.choice(rn.MODALS), v[0]) for v in gc.VERBS}
    lmfiles.install([lmfiles.real_unigrams(), lmfiles.distinct_probas(rng, sorted(bi), 1e-7)])
    M.set_word_vectors({})
    env.oracle = Oracle('pipe/%d' % ctx.seed)
    env.texts = {}
    env.serial = 0
    env.alone = {}
    env.pipes = {}
    env.hook = None  # called with the text by the sentence splitter of the harness
    use(env)


def use(env):
    faketf.set_oracle(env.oracle)


def splitter(env):
    def split(text):
        if env.hook:
            env.hook(text)
        return env.texts[text]
    return split


def pipeline(env, cores, batch, gpu=True, real=False):
    from scrappybara.pipeline.pipeline import Pipeline
    key = (cores, batch, gpu, real)
    if key not in env.pipes:
        kw = {} if real else {'sentencizer': splitter(env)}
        env.pipes[key] = Pipeline(nb_cores=cores, batch_size=batch, use_gpu=gpu, **kw)
    return env.pipes[key]


def forget(env):
    """Between cases"""
    env.serial += 1
    env.texts.clear()
    env.alone.clear()
    env.oracle.gold.clear()
    env.oracle.guesses.clear()
    env.oracle.decoded.clear()
    env.oracle.calls.clear()
    env.oracle.fault = None
    env.oracle.monitor = None
    env.hook = None
    use(env)


# Sentences ----------------------------------------------------------------------------------------------------------


def name(rng):
    return rng.choice(['Za', 'Ko', 'Mi', 'Vu']) + ''.join(rng.choice('bcdfghjklmnprt') + rng.choice('aeiou') for _ in range(4))


def svo(rng, extra=None):
    """A sentence whose only tuple names it"""
    verb = rng.choice([v for v in gc.VERBS if v[0] not in ('open',)])
    rows = [[name(rng), 'PROPN', 'SUBJ', 1], [verb[1], 'VERB', 'ROOT', -1], [name(rng), 'PROPN', 'OBJ', 1]]
    for w in (extra if extra is not None else ['yes'] * rng.choice([0, 0, 0, 1, 5])):
        rows.append([w, 'EXPR', 'NODEP', -1])
    return rows + [['.', 'PUNCT', 'NODEP', -1]]


def svo_names(rows):
    return rows[0][0].lower(), rows[2][0].lower()


def is_svo(sentence):
    return (len(sentence) > 3 and isinstance(sentence[0], list) and [r[1] for r in sentence[:3]] == ['PROPN', 'VERB', 'PROPN']
            and all(r[2] == 'NODEP' for r in sentence[3:]) and [r[2] for r in sentence[:3]] == ['SUBJ', 'ROOT', 'OBJ'])


def clause(rng):
    while True:
        s = gc.sentence(rng, PROFILE, 0, 0)
        if le.fits_pipe(s):
            ident = [[name(rng), 'SYM', 'NODEP', -1]]
            return ident + [[a, b, c, d + 1 if d >= 0 else -1] for a, b, c, d in s]


def babble(rng, n=None):
    n = n if n is not None else rng.choice([0, 1, 1, 2, 3, 5, 9, 20, 49, 50])
    return [gtx.plain_word(rng) if rng.random() < .8 else rng.choice(SPLITTERS + [',', '.', 'Ω']) for _ in range(n)]


def overlong(rng, n=None):
    """More than 50 tokens, delimiters here and there"""
    n = n or rng.choice([51, 51, 52, 60, 75, 101, 102, 130, 200])
    p = rng.choice([0., .02, .05, .1, .3, .6])
    toks = [rng.choice(SPLITTERS) if rng.random() < p else gtx.plain_word(rng) for _ in range(n)]
    if rng.random() < .3:
        toks[0] = rng.choice(SPLITTERS)
    if rng.random() < .3:
        toks[-1] = rng.choice(SPLITTERS)
    return toks


def sentence(rng, p_long=.08):
    k = rng.random()
    if k < p_long:
        return overlong(rng)
    if k < .45:
        return svo(rng)
    if k < .75:
        return clause(rng)
    return babble(rng)


def kin(rng, sentence):
    """Tokens that resemble those of a sentence (same letters, words or encoding) and are another sentence; its labels are made up"""
    toks = tokens_of(sentence)
    if not toks or len(toks) > LIMIT:
        return babble(rng)
    k, i = rng.randrange(8), rng.randrange(len(toks))
    if k == 0:
        toks[i] = rng.choice([toks[i].upper(), toks[i].lower(), toks[i].capitalize(), toks[i].swapcase()])
    elif k == 1:
        toks = [rng.choice([t.upper(), t.lower()]) for t in toks]
    elif k == 2 and len(toks) > 1:
        toks[i - 1:i + 1] = [''.join(toks[i - 1:i + 1])] if i else toks[:1]
    elif k == 3 and len(toks[i]) > 1:
        cut = rng.randrange(1, len(toks[i]))
        toks[i:i + 1] = [toks[i][:cut], toks[i][cut:]]
    elif k == 4:
        rng.shuffle(toks)
    elif k == 5:
        toks = rng.choice([toks[:i] + toks[i + 1:], toks[:i + 1], toks[i:], toks[:i] + [toks[i]] + toks[i:]])
    elif k == 6:
        toks[i] = rng.choice('zkmv') + rng.choice('aeiou') + toks[i]
    else:
        # The networks cannot tell them apart, their words can
        toks[i] = rng.choice(['Ab', 'Cd', 'Ef', 'xy']) * 3 + toks[i].rjust(20, rng.choice('xz'))
    return toks[:LIMIT]


def document(rng, p_long=.08, sizes=(0, 1, 1, 2, 3, 5, 8)):
    sents = [sentence(rng, p_long) for _ in range(rng.choice(sizes))]
    if sents and rng.random() < .2:
        sents.append(rng.choice(sents))
    if sents and rng.random() < .3:
        for _ in range(rng.choice([1, 1, 2, 3])):
            sents.insert(rng.randrange(len(sents) + 1), kin(rng, rng.choice(sents)))
    return sents


def real_text(rng):
    """Text for the real sentence splitter"""
    k = rng.random()
    if k < .6:
        out = [svo(rng, []) for _ in range(rng.choice([0, 1, 1, 2, 4]))]
        return {'rows': out, 'text': rng.choice([' ', '\n']).join('%s.' % ' '.join(r[0] for r in s[:-1]) for s in out)}
    if k < .8:
        return {'rows': [], 'text': gtx.hostile(rng)}
    words = [gtx.plain_word(rng) for _ in range(rng.choice([49, 50, 60, 110]))]
    for _ in range(rng.choice([0, 1, 3])):
        words[rng.randrange(len(words))] = rng.choice([';', ' - ', ':', '; ;'])
    return {'rows': [], 'text': ' '.join(words) + '.'}


def tokens_of(sentence):
    return [r[0] if isinstance(r, list) else r for r in sentence]


def split_long(sentences):
    """Reference: sentences analysed for a list of token lists"""
    out = []
    for tokens in sentences:
        if len(tokens) <= LIMIT:
            out.append(list(tokens))
            continue
        run = []
        for t in list(tokens) + [SPLITTERS[0]]:
            if t in SPLITTERS:
                if 0 < len(run) <= LIMIT:
                    out.append(run)
                run = []
            else:
                run.append(t)
    return out


def learn(env, sentences):
    """Makes the networks know the annotated ones"""
    for s in sentences:
        if s and isinstance(s[0], list) and sum(r[2] != 'NODEP' for r in s) > 1 and len(s) <= LIMIT:
            trans, _, _ = le.parser_arcs(s)
            env.oracle.register([r[0] for r in s], [gt.TAG_CODE[r[1]] for r in s], [gt.DEP_CODE[r[2]] for r in s], trans)


def plain(stuples):
    return [le.plain(t) for t in stuples]


def alone(env, tokens, chunk=True):
    """What the sentence yields, processed alone with one core"""
    key = (tuple(tokens), chunk)
    if key not in env.alone:
        hook, env.hook = env.hook, None
        fault, env.oracle.fault = env.oracle.fault, None
        monitor, env.oracle.monitor = env.oracle.monitor, None
        text = label(env, 'alone %d' % len(env.alone))
        env.texts[text] = [list(tokens)]
        docs = pipeline(env, 1, 1)([text], chunk_common_nouns=chunk)
        env.hook, env.oracle.fault, env.oracle.monitor = hook, fault, monitor
        assert len(docs) == 1 and len(list(docs[0])) == 1, 'a sentence alone gave %d documents' % len(docs)
        env.alone[key] = plain(list(docs[0])[0])
    return env.alone[key]


def outcome(docs):
    return [[plain(s) for s in doc] for doc in docs]


def expected(env, split, chunk=True):
    """Outcome for a list of lists of token lists"""
    return [[alone(env, tokens, chunk) for tokens in split_long(sents)] for sents in split]


_HEAD, _TAIL = ('%s. ' % ' '.join(w * 9) for w in (['This text starts like any other one'], ['and ends like any other one']))


def label(env, name):
    """A text that is never used again for other sentences, with the length, the start and the end of all others"""
    return '%s%-24s%09d%s' % (_HEAD, name, env.serial, _TAIL)


def prepare(env, docs, labels=None):
    """Texts of the documents (equal documents may share their text)"""
    texts = []
    for k, sents in enumerate(docs):
        learn(env, sents)
        text = label(env, 'text %d' % k if labels is None else labels[k])
        env.texts[text] = [tokens_of(s) for s in sents]
        texts.append(text)
    return texts


def schedule(kind, seed):
    if kind == 'sched':
        rng = random.Random('kind/%s' % seed)
        k = rng.random()
        only = rng.choice([None, ('multithreading.py', 'logic_pipeline.py'), ('multithreading.py', 'mutables.py')]) if k < .3 else sched.some_files(rng)
        return sched.Scheduler(seed, rng.choice([.02, .1, .3, .7]), only=only, max_points=6000)
    if kind == 'jitter':
        return sched.Jitter(seed)
    if kind == 'dilated':
        return sched.Dilated(seed)
    return None
