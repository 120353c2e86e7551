"""Relative and reflexive pronouns."""
import collections

from vlib import gen_clauses as gc, logic_env as le
from vlib.core import Kind

RULE = ('Annotated sentences with relative clauses (pronoun as subject, object, absent; marked or not; after nouns, names, pronouns and conjuncts; copula or full verb) and reflexive pronouns (object, subject of a clause object), by two public routes. '
        'The reference is computed with and without pronoun resolution; every tuple the resolution adds must be found and every tuple it removes must not. Non-trivial: the resolution changes the tuples.')
REQUIRE = {'sentences': 8000, 'changed_tuples': 5000, 'distinct_nontrivial': 1500, 'who': 300, 'which': 300, 'that': 300, 'no_pronoun': 300, 'reflexive': 500, 'left_alone': 300, 'piped': 2000, 'long_lists': 200}
ANCHORS = ['syntax/arg_finder.py', 'semantics/semantic_tuple_extractor.py']
setup = le.setup

_PROFILES = [
    gc.profile(p_rel=.8, p_copula=.2, p_pron=.1, p_cconj=.25),
    gc.profile(p_rel=.6, p_copula=.5, p_neg=.3),
    gc.profile(p_reflexive=.8, p_obj=.95, p_copula=.05, p_cconj=.25, p_vconj=.25),
    gc.profile(p_reflexive=.5, p_clause=.9, p_copula=.1, p_cconj=.2),
]


def check(ctx, case):
    for s, want, got in le.run(ctx, case):
        expected, without = want(), want(pronouns=False)
        e = collections.Counter((t.words, t.codes) for t in expected)
        e2 = collections.Counter((t.words, t.codes) for t in without)
        o = le.word_level(got)
        ctx.count('sentences')
        if case['route'] == 'pipe':
            ctx.count('piped')
        changed = [t for t in set(e) | set(e2) if e[t] != e2[t]]
        for t in changed:
            ctx.count('changed_tuples')
            ctx.check(o[t] == e[t], 'tuple of a resolved pronoun', sentence=s, text=le.text(s), tuple=t, expected=e[t], observed=o[t], without_resolution=e2[t], all=le.show(o))
        # Where nothing is to be resolved, no pronoun may be replaced
        pronouns = {r[0].lower() for r in s if r[0].lower() in gc.RELATIVE or r[0] in gc.REFLEXIVE}
        for t in e:
            if any(w in pronouns for w in t[0]):
                ctx.count('left_alone')
                ctx.check(o[t] == e[t], 'pronoun that stands for itself', sentence=s, text=le.text(s), tuple=t, expected=e[t], observed=o[t], all=le.show(o))
        for t in o:
            if any(w in pronouns for w in t[0]):
                ctx.check(o[t] == e[t], 'pronoun that should be resolved', sentence=s, text=le.text(s), tuple=t, expected=e[t], observed=o[t], all=le.show(e))
        if changed:
            for p in pronouns:
                ctx.count('reflexive' if p in gc.REFLEXIVE else p)
            ctx.count('no_pronoun', not pronouns)
            ctx.nontrivial(sorted(map(str, changed)))
            ctx.sample({'text': le.text(s), 'tuples': le.show(o)})


KINDS = {'pronouns': Kind(le.gen(_PROFILES, mutate=.1), check, 8000, 60000)}
