"""Polarity of tuples."""
import collections

from vlib import gen_clauses as gc, logic_env as le
from vlib.core import Kind

RULE = ('Annotated sentences of all constructions with 0 to many negations on any of their words, by two public routes. For every tuple found as often as the rules say, the oracle recounts the negated words the tuple is built from and '
        'compares the number of negative ones; negation anywhere but on the verb is refused. Non-trivial: a sentence with at least two negations and a tuple; distinct by tuples and polarities.')
REQUIRE = {'sentences': 8000, 'negative': 5000, 'cancelled': 1200, 'distinct_nontrivial': 2500, 'neg_pred': 800, 'neg_clause': 500, 'neg_prop': 1200, 'neg_passive': 600, 'neg_active': 100, 'piped': 2000, 'long_lists': 200}
ANCHORS = ['semantics/semantic_tuple_extractor.py', 'utils/maths.py', 'syntax/arg_finder.py']
setup = le.setup

_PROFILES = [
    gc.profile(p_neg=.5, p_adj=.3, p_cconj=.3),
    gc.profile(p_neg=.6, p_copula=.6, p_pp=.3, p_agent=.8, p_cconj=.2),
    gc.profile(p_neg=.5, p_clause=.8, p_copula=.2),
    gc.profile(p_neg=.4, p_naming=.4, p_iprop=.4, p_obj=.9, p_iobj=.3),
    gc.profile(p_neg=.4, p_rel=.4, p_reflexive=.3, p_long=.3),
]


def check(ctx, case):
    for s, want, got in le.run(ctx, case):
        expected = want()
        e, o = collections.defaultdict(list), collections.defaultdict(list)
        for t in expected:
            e[t.words, t.codes].append(t.negative)
        for w, c, neg in got:
            ctx.check(not any(n for i, n in enumerate(neg) if i != 1), 'negation on another argument than the verb', sentence=s, tuple=(w, c, neg))
            o[w, c].append(neg[1])
        for t in e:
            if len(o[t]) == len(e[t]):
                ctx.check(sorted(o[t]) == sorted(e[t]), 'polarity', sentence=s, text=le.text(s), tuple=t, expected_negative=sorted(e[t]), observed_negative=sorted(o[t]))
        ctx.count('sentences')
        if case['route'] == 'pipe':
            ctx.count('piped')
        negated = {r[3] for r in s if r[2] == 'NEG'}
        for t in expected:
            if t.negative:
                ctx.count('negative')
                ctx.count('neg_' + t.family)
            elif len(negated & set(t.parts)) > 1:
                ctx.count('cancelled')
        if expected and len(negated) > 1:
            ctx.nontrivial(sorted((t.words, t.codes, t.negative) for t in expected))
            ctx.sample({'text': le.text(s), 'tuples': [[list(w), c, n[1]] for w, c, n in got]})


KINDS = {'negations': Kind(le.gen(_PROFILES, mutate=.1), check, 8000, 60000)}
