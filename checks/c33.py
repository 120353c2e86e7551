"""Result objects."""
import collections
import itertools

from vlib import gen_clauses as gc, logic_env as le
from vlib.core import Kind

RULE = ('Arguments, tuples, sentences and documents built directly (any words incl. blanks and non-ASCII, all codes, both polarities, 0 to 7 arguments, 0 to 6 sentences; a few of hundreds) and returned by the pipeline. Every public query is answered from a plain list '
        'of (word, code, affirmative). Codes outside the documented ones must be refused. Non-trivial: a negative argument and at least two arguments.')
REQUIRE = {'tuples': 8000, 'arguments': 20000, 'refused_codes': 3000, 'documents': 1500, 'piped_documents': 300, 'distinct_nontrivial': 3000, 'negative': 3000, 'repeated': 500, 'long_documents': 5}
ANCHORS = ['semantics/argument.py', 'semantics/semantic_tuple.py', 'pipeline/document.py', 'pipeline/sentence.py', 'exceptions.py']
CODES = 'ACLINOPRSTU'
TAG = dict({c: 'NOUN' for c in 'NPOSU'}, **{c: 'ADJ' for c in 'AL'}, **{c: 'VERB' for c in 'TIR'})
setup = le.setup

_WORDS = ['apple', 'hot dog', 'be', 'NOT', 'NOT eat', 'été', '', ' ', 'a, b', '(x)', 'Laura', '日本', "x'", 'take care of', 'None', '0']


def _arg(rng):
    return [rng.choice(_WORDS) if rng.random() < .6 else ''.join(rng.choice('abcXYZ ,()éß') for _ in range(rng.randint(0, 8))), rng.choice(CODES), rng.random() < .6]


def _gen(rng, ctx):
    docs = [[[[_arg(rng) for _ in range(rng.choice([0, 1, 2, 2, 3, 3, 3, 4, 5, 7]))] for _ in range(rng.choice([0, 1, 2, 5]))] for _ in range(rng.choice([0, 1, 2, 3, 6]))] for _ in range(2)]
    bad = [rng.choice(['', 'X', 'a', 'n', 'NN', 'TN', 'Z', ' ', 'B', '1', 'ADJ', 'é', 'NOUN', 'V']) for _ in range(5)]
    return {'docs': docs, 'bad': bad, 'default': rng.random() < .3, 'twice': rng.randint(0, 9)}


def _gen_long(rng, ctx):
    """Many sentences, or many tuples in a sentence, or many arguments in a tuple"""
    n, m, k = rng.choice([(1200, 1, 2), (3, 400, 2), (1, 3, 300), (300, 5, 3), (0, 2000, 1)])
    return {'docs': [[[[_arg(rng) for _ in range(k)] for _ in range(m)] for _ in range(n or 1)]], 'bad': [], 'default': False, 'twice': 0}


def _check_arg(ctx, arg, word, code, aff):
    ctx.count('arguments')
    info = {'argument': (word, code, aff)}
    ctx.equal(word, arg.word, 'word', **info)
    ctx.equal(code, arg.code, 'code', **info)
    ctx.equal(aff, arg.is_affirmative, 'is_affirmative', **info)
    full = word if aff else 'NOT ' + word
    ctx.equal(full, arg.flatten(), 'text', **info)
    ctx.equal(full, arg.flatten(True), 'text', **info)
    ctx.equal(full, arg.flatten(with_decorators=True), 'text', **info)
    ctx.equal(word, arg.flatten(with_decorators=False), 'text without decorators', **info)
    ctx.equal(word, arg.flatten(False), 'text without decorators', **info)
    ctx.equal(full, str(arg), 'str', **info)
    if code in TAG:
        ctx.equal(TAG[code], arg.tag, 'tag', **info)
    else:
        ctx.check(arg.tag in ('NOUN', 'VERB', 'ADJ'), 'tag', **info)
    return full


def _check_tuple(ctx, st, rows, args=None):
    ctx.count('tuples')
    ctx.equal(len(rows), len(st), 'length', rows=rows)
    for _ in range(2):
        listed = list(st)
        ctx.equal(len(rows), len(listed), 'iteration', rows=rows)
        if args is not None:
            ctx.check(all(a is b for a, b in zip(listed, args)), 'iteration gives other arguments', rows=rows)
    # Two iterations at once
    ctx.equal([(a, b) for a in listed for b in listed], [(a, b) for a in st for b in st], 'nested iterations', rows=rows)
    texts = []
    for i, (arg, row) in enumerate(zip(listed, rows)):
        ctx.check(st.arg(i) is arg, 'argument %d' % i, rows=rows)
        texts.append(_check_arg(ctx, arg, *row))
    for i in (len(rows), len(rows) + 3):
        try:
            st.arg(i)
        except Exception:
            ctx.count('out_of_range')
        else:
            ctx.fail('an argument past the last one is given', rows=rows, index=i)
    code = ''.join(r[1] for r in rows)
    ctx.equal(code, st.code, 'code', rows=rows)
    full = '%s(%s)' % (code, ', '.join(texts))
    bare = '%s(%s)' % (code, ', '.join(r[0] for r in rows))
    ctx.equal(full, str(st), 'str', rows=rows)
    ctx.equal(full, st.flatten(), 'flatten', rows=rows)
    ctx.equal(full, st.flatten(with_decorators=True), 'flatten', rows=rows)
    ctx.equal(bare, st.flatten(with_decorators=False), 'flatten without decorators', rows=rows)
    for c in CODES:
        ctx.equal(c in code, bool(st.has_any_arg_with_code(c)), 'has_any_arg_with_code(%s)' % c, rows=rows)
    for c in {'', code, code[:2], code.lower(), code[1:]} - set(CODES):
        ctx.equal(False, bool(st.has_any_arg_with_code(c)), 'has_any_arg_with_code(%r), which is no code' % c, rows=rows)
    neg = sum(not r[2] for r in rows)
    ctx.count('negative', neg)
    if neg and len(rows) > 1:
        ctx.nontrivial(rows)


def check(ctx, case):
    from scrappybara.exceptions import ArgumentValueError
    from scrappybara.pipeline.document import Document
    from scrappybara.pipeline.sentence import Sentence
    from scrappybara.semantics.argument import Argument
    from scrappybara.semantics.semantic_tuple import SemanticTuple
    docs = []
    for d in case['docs']:
        doc = Document()
        for s in d:
            sent = Sentence()
            for rows in s:
                args = [Argument(w, c) if a and case['default'] else Argument(w, c, a) if a else Argument(w, c, is_affirmative=a) for w, c, a in rows]
                st = SemanticTuple(*args)
                _check_tuple(ctx, st, rows, args)
                sent.stuples.append(st)
            doc.sentences.append(sent)
        docs.append(doc)
    if case['twice'] and case['docs'][0]:
        # The same sentence at several places, the same tuple several times in a sentence
        at = case['twice'] % len(case['docs'][0])
        again = case['docs'][0][at]
        docs.append(Document())
        docs[-1].sentences.extend(docs[0].sentences + [docs[0].sentences[at]] * 2)
        case = dict(case, docs=case['docs'] + [case['docs'][0] + [again, again]])
        double = Sentence()
        double.stuples.extend(docs[0].sentences[at].stuples * 2)
        docs.append(Document())
        docs[-1].sentences.append(double)
        case['docs'].append([again * 2])
        ctx.count('repeated')
    for doc, d in zip(docs, case['docs']):
        _check_doc(ctx, doc, [len(s) for s in d])
        ctx.equal([rows for s in d for rows in s], [[[a.word, a.code, a.is_affirmative] for a in st] for st in doc.stuples], 'tuples of the document')
    for code in case['bad']:
        try:
            Argument('x', code)
        except ArgumentValueError as e:
            ctx.count('refused_codes')
            ctx.check(isinstance(e, Exception), 'error')
        else:
            ctx.fail('unknown code accepted', code=code)
    ctx.sample(case['docs'][0][:2])


def _check_doc(ctx, doc, sizes):
    ctx.count('documents')
    ctx.count('long_documents', len(sizes) > 250 or sum(sizes) > 1000)
    sents = list(doc)
    ctx.equal(sizes, [len(list(s)) for s in sents], 'tuples per sentence')
    ctx.check(all(a is b for a, b in zip(sents, doc.sentences)) and len(sents) == len(doc.sentences), 'iteration over sentences')
    for s in sents:
        ctx.check(len(list(s)) == len(s.stuples) and all(a is b for a, b in zip(s, s.stuples)), 'iteration over tuples of a sentence')
    want = [t for s in sents for t in s.stuples]
    for _ in range(2):
        got = doc.stuples
        ctx.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), 'tuples of the document')
    ctx.equal(len(sizes) ** 2, sum(1 for _ in itertools.product(doc, doc)), 'nested iterations over a document')


def _gen_piped(rng, ctx):
    case = le.gen([gc.profile(p_neg=.4, p_adj=.4)], mutate=0.)(rng, ctx)
    samples = [s for s in case['samples'] if le.fits_pipe(s)]
    return {'samples': samples}


def check_piped(ctx, case):
    env = ctx.env
    le.observe(ctx, case['samples'], 'pipe', True, 3, 4)
    docs = le.pipeline(env, 3, 4)(list(env.texts))
    for doc in docs:
        sents = list(doc)
        _check_doc(ctx, doc, [len(s.stuples) for s in sents])
        ctx.count('piped_documents')
        for st in doc.stuples:
            _check_tuple(ctx, st, [[a.word, a.code, a.is_affirmative] for a in st])
    ctx.equal(sum(len(d.stuples) for d in docs), sum(len(s.stuples) for d in docs for s in d), 'tuples listed')


KINDS = {'objects': Kind(_gen, check, 6400, 25600), 'long': Kind(_gen_long, check, 24, 240), 'piped': Kind(_gen_piped, check_piped, 640, 2560)}
