"""Re-splitting of over-long sentences, and refusal by the encoder."""
import collections

from vlib import gen_text as gtx, models as M, pipe_env as pe
from vlib.core import Kind

RULE = ('Sentences of 0 to 260 tokens, dense around 49 to 52, whose runs between delimiters have lengths around 1, 49, 50 and 51, delimiters leading, trailing, adjacent or absent, every delimiter alone, and look-alikes of delimiters that must not split; '
        'the monitor records every sentence that reaches the tagging network, and the documents give their number and order. Sentences are also given directly to the encoder, the tagger and the parser. '
        'Non-trivial: a sentence above the limit; distinct by lengths of the runs and delimiters.')
REQUIRE = {'over_limit': 800, 'kept_whole': 400, 'at_limit': 100, 'just_over': 100, 'dropped_runs': 200, 'runs_of_fifty': 60, 'edge_delimiters': 150, 'refused': 80, 'accepted': 80, 'distinct_nontrivial': 500}
ANCHORS = ['pipeline/pipeline.py', 'syntax/training_samples.py', 'syntax/parser.py', 'syntax/tagger.py', 'config.py']
LOOKALIKES = ['--', '::', '...', ',', '.', "'", '?', '!', '–', '—', '“', '”', '/', '|', '<', '>', '*', '&', '((', '""', '-x', 'a-b', ':)', ';;', '_', '-.', '.-', ':.', '.:', '."', '.)', '-)', '-:', '--:', '=', '+', "''"]

setup = pe.setup


class _Monitor(object):

    def __init__(self):
        self.seen = collections.Counter()
        self.order = []

    def on_tags(self, keys, char, word):
        self.seen.update(keys)
        self.order.extend(keys)

    def on_deps(self, *args):
        pass

    on_trans = on_answer = on_deps


def _words(rng, n):
    words = [rng.choice(LOOKALIKES) if rng.random() < .06 else gtx.plain_word(rng) for _ in range(n)]
    if rng.random() < .05:  # few tokens, many characters
        times = rng.choice([8, 20, 60])
        words = [w * times if w.isalpha() else w for w in words]
    return words


def _sentence(rng):
    k = rng.random()
    if k < .3:
        n = rng.choice([0, 1, 2, 10, 47, 48, 49, 49, 50, 50, 50])
        s = _words(rng, n)
        for i in range(n):
            if rng.random() < .1:
                s[i] = rng.choice(pe.SPLITTERS)
        return s
    if k < .4:
        return _words(rng, rng.choice([51, 51, 52, 60, 101]))
    if k < .6:  # just over the limit
        n = rng.choice([51, 51, 52, 53])
        s = _words(rng, n)
        for i in rng.sample(range(n), rng.choice([1, 1, 2, 3, 10])):
            s[i] = rng.choice(pe.SPLITTERS)
        return s
    if k < .63:
        return [rng.choice(pe.SPLITTERS) for _ in range(rng.choice([51, 52, 70]))]
    out = []
    if rng.random() < .3:
        out += [rng.choice(pe.SPLITTERS) for _ in range(rng.choice([1, 2, 3]))]
    only = rng.choice(pe.SPLITTERS) if rng.random() < .4 else None
    while len(out) <= pe.LIMIT or rng.random() < .3:
        out += _words(rng, rng.choice([1, 2, 3, 7, 20, 30, 48, 49, 50, 50, 51, 51, 52, 60]))
        out += [only or rng.choice(pe.SPLITTERS) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    if rng.random() < .6:
        while out[-1] in pe.SPLITTERS:
            out.pop()
    return out


def _gen(rng, ctx):
    return {'docs': [[_sentence(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))] for _ in range(rng.choice([1, 2, 3, 4]))], 'cores': rng.choice([1, 2, 3, 8]), 'batch': rng.choice([1, 2, 5, 128])}


def _check(ctx, case):
    env = ctx.env
    pe.forget(env)
    texts = pe.prepare(env, case['docs'])
    pipe = pe.pipeline(env, case['cores'], case['batch'])
    want = [pe.split_long(d) for d in case['docs']]
    env.oracle.monitor = mon = _Monitor()
    docs = pipe(list(texts))
    env.oracle.monitor = None
    expected = collections.Counter(M.key_of(s, env.oracle.codes) for d in want for s in d)
    ctx.equal([len(d) for d in want], [len(list(d)) for d in docs], 'number of sentences per document', lengths=[[len(s) for s in d] for d in case['docs']])
    ctx.check(set(expected) <= set(mon.seen), 'sentences or runs that were never analysed', missing=[' '.join(k) for k in expected if k not in mon.seen][:3], lengths=[[len(s) for s in d] for d in case['docs']])
    ctx.check(set(mon.seen) <= set(expected), 'something else than the sentences and the runs was analysed', extra=[' '.join(k) for k in mon.seen if k not in expected][:3])
    ctx.equal([[pe.alone(env, s) for s in d] for d in want], pe.outcome(docs), 'documents of the runs, in order', lengths=[[len(s) for s in d] for d in case['docs']])
    for d in case['docs']:
        for s in d:
            if len(s) <= pe.LIMIT:
                ctx.count('kept_whole')
                ctx.count('at_limit', len(s) == pe.LIMIT)
                continue
            ctx.count('over_limit')
            ctx.count('just_over', len(s) == pe.LIMIT + 1)
            ctx.count('edge_delimiters', s[0] in pe.SPLITTERS or s[-1] in pe.SPLITTERS)
            runs, cur = [], 0
            for t in s + [':']:
                if t in pe.SPLITTERS:
                    runs.append(cur)
                    cur = 0
                else:
                    cur += 1
            ctx.count('dropped_runs', sum(r > pe.LIMIT for r in runs))
            ctx.count('runs_of_fifty', sum(r == pe.LIMIT for r in runs))
            ctx.nontrivial([runs, [t for t in s if t in pe.SPLITTERS]])
    ctx.sample({'lengths': [[len(s) for s in d] for d in case['docs']], 'analysed': [[len(s) for s in d] for d in want]})


def _gen_direct(rng, ctx):
    n = rng.choice([0, 1, 49, 50, 50, 51, 51, 51, 52, 53, 60, 100, 200])
    p = rng.choice([0, .1])
    return {'tokens': [rng.choice(pe.SPLITTERS) if rng.random() < p else gtx.plain_word(rng) for _ in range(n)], 'others': rng.randint(0, 3), 'at': rng.randint(0, 3)}


def _check_direct(ctx, case):
    from scrappybara.syntax.charset import Charset
    from scrappybara.syntax.parser import Parser
    from scrappybara.syntax.tagger import Tagger
    from scrappybara.syntax.training_samples import SentenceTooLongError, vectorize_sentence
    from scrappybara.syntax.wordset import Wordset
    env = ctx.env
    pe.forget(env)
    if not hasattr(ctx, 'direct'):
        ctx.direct = Charset().load(), Wordset().load(), Parser(2, 3), Tagger()
    charset, wordset, parser, tagger = ctx.direct
    tokens = case['tokens']
    lists = [['a', 'small', 'cat'] for _ in range(case['others'])]
    lists.insert(min(case['at'], len(lists)), list(tokens))
    for what, call in (('encoder', lambda: vectorize_sentence(list(tokens), charset, wordset)), ('parser', lambda: parser(lists)), ('tagger', lambda: tagger.tag(lists))):
        raised = out = None
        try:
            out = call()
        except SentenceTooLongError as e:
            raised = e
        except Exception as e:
            if len(tokens) <= pe.LIMIT:
                raise
            raised = e
        if len(tokens) > pe.LIMIT:
            ctx.check(raised is not None, 'the %s accepted a sentence of %d tokens' % (what, len(tokens)))
            ctx.check(isinstance(raised, SentenceTooLongError), 'the %s refused a sentence of %d tokens with another error' % (what, len(tokens)), raised=repr(raised))
            ctx.count('refused')
        else:
            ctx.check(raised is None, 'the %s refused a sentence of %d tokens' % (what, len(tokens)))
            if what == 'encoder':
                ctx.equal(len(tokens) + 2, out[0], 'length given by the encoder')
            elif what == 'parser':
                ctx.equal([len(t) for t in lists], [len(t) for t in out[0]], 'number of tags')
            else:
                ctx.equal([len(t) for t in lists], [len(t) for t in out], 'number of tags')
            ctx.count('accepted')
    ctx.nontrivial(['direct', len(tokens), case['others'], case['at']])


KINDS = {'pipeline': Kind(_gen, _check, 900, 15000), 'direct': Kind(_gen_direct, _check_direct, 250, 4000)}
