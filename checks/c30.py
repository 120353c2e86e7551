"""Wording of arguments."""
import collections

from vlib import gen_clauses as gc, logic_env as le
from vlib.core import Kind

RULE = ('Annotated sentences rich in compounds (any depth, possessives, proper and numeric members), flat names of 2 to 4 (sometimes 10) words, verb and adjective particles, infinitives, pronouns, inflected and capitalised words, with chunking on and off, by two '
        'public routes. The oracle lists every canonical wording of the sentence: no argument may be worded otherwise, and when the shapes of the tuples agree with the rules their words must too. Non-trivial: an argument of several words '
        'or differing from its token.')
REQUIRE = {'sentences': 8000, 'arguments': 20000, 'distinct_nontrivial': 2500, 'chunks': 800, 'unchunked': 500, 'names': 500, 'particles': 800, 'subject_pronouns': 600, 'infinitives': 500, 'lemmas': 5000, 'piped': 3000, 'long_names': 60, 'far_particles': 30}
ANCHORS = ['syntax/chunker.py', 'syntax/nodifier.py', 'normalization/canonicalizer.py', 'pipeline/logic_pipeline.py', 'pipeline/pipeline.py']
setup = le.setup

_PROFILES = [
    gc.profile(p_compound=.6, p_pron=.1, p_name=.1, p_cconj=.2, p_adj=.15),
    gc.profile(p_compound=.4, p_pron=.3, p_name=.3, p_flat=.8, p_part=.4, p_caps=.3),
    gc.profile(p_part=.5, p_clause=.5, p_inf=.8, p_light=.1),
    gc.profile(p_compound=.4, p_mark=.4, p_pp=.3, p_copula=.5),
]


def _gen(rng, ctx):
    case = le.gen(_PROFILES, mutate=0.)(rng, ctx)
    case['chunk'] = case['route'] == 'logic' or rng.random() < .5
    return case


def check(ctx, case):
    for s, want, got in le.run(ctx, case):
        expected, allowed = want(), want(words=True)
        o = le.word_level(got)
        e = collections.Counter((t.words, t.codes) for t in expected)
        ctx.count('sentences')
        if case['route'] == 'pipe':
            ctx.count('piped')
        tokens = {r[0] for r in s}
        low = {t.lower() for t in tokens}
        rich = []
        for words, codes in o:
            for w, c in zip(words, codes):
                ctx.count('arguments')
                ctx.check(w in allowed, 'argument worded in no canonical way', sentence=s, text=le.text(s), chunking=case['chunk'], word=w, tuple=(words, codes), allowed=sorted(allowed))
                if c in 'NPOSU':
                    if ' ' in w:
                        rich.append((w, c))
                        ctx.count('names' if c == 'P' else 'chunks')
                    elif w not in low:
                        ctx.count('subject_pronouns' if c == 'O' else 'lemmas')
                        rich.append((w, c))
                elif ' ' in w:
                    rich.append((w, c))
                    ctx.count('particles')
        if any(r[0].lower() == 'to' and r[2] == 'PART' for r in s):
            ctx.count('infinitives')
        if case['route'] == 'pipe' and not case['chunk'] and any(r[1] == 'NOUN' and r[2] == 'CPL' and r[3] > i for i, r in enumerate(s)):
            ctx.count('unchunked')
        shapes = lambda counter: sorted((c, len(w)) for (w, c), n in counter.items() for _ in range(n))
        if shapes(o) == shapes(e):
            ctx.equal(le.show(e), le.show(o), 'words of the arguments', sentence=s, text=le.text(s), chunking=case['chunk'])
        # Codes by part of speech
        known = collections.defaultdict(set)
        for t in expected:
            for w, c in zip(t.words, t.codes):
                known[w].add(c)
        for words, codes in o:
            for w, c in zip(words, codes):
                if c in 'NPOSUAL' and known[w] & set('NPOSUAL'):
                    ctx.check(c in known[w], 'code of an argument', sentence=s, word=w, code=c, expected=sorted(known[w]), tuple=(words, codes))
        if rich:
            ctx.nontrivial(sorted(set(rich)))
            ctx.sample({'text': le.text(s), 'chunking': case['chunk'], 'tuples': le.show(o)})


KINDS = {'wording': Kind(_gen, check, 6000, 48000)}
