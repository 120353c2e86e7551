"""Predicate tuples (subject, verb, object, recipient)."""
from vlib import gen_clauses as gc, logic_env as le
from vlib.core import Kind

RULE = ('Annotated sentences from a clause grammar (0 to 4 subjects, objects and recipients per verb, conjoined verbs sharing them, infinitives, complement properties, light verbs, marked complements), part of them with random label or tag '
        'changes, run through LogicPipeline and through a full Pipeline whose networks answer the annotation. The oracle counts the predicate tuples by rule and compares word by word. Non-trivial: at least two predicate tuples.')
REQUIRE = {'sentences': 8000, 'tuples_pred': 6000, 'distinct_nontrivial': 1200, 'shapes': 25, 'recipients': 400, 'conjoined': 1200, 'barred_verbs': 1000, 'piped': 2000, 'long_lists': 200}
ANCHORS = ['semantics/semantic_tuple_extractor.py', 'syntax/arg_finder.py', 'syntax/node.py', 'pipeline/logic_pipeline.py']
FAMILIES = ('pred',)
setup = le.setup

_PROFILES = [
    gc.profile(p_copula=.08, p_vconj=.4, p_cconj=.35, p_iobj=.25, p_rel=.05),
    gc.profile(p_copula=.05, p_vconj=.3, p_cconj=.2, p_iobj=.3, p_obj=.8, p_rel=0., p_adj=.05, p_clause=.1),
    gc.profile(p_copula=.1, p_clause=.35, p_inf=.6, p_long=.5, p_light=.4),
    gc.profile(p_exist=.2, p_iprop=.2, p_light=.5, p_part=.3),
    gc.BASE,
]


def check(ctx, case):
    for s, want, got in le.run(ctx, case):
        expected = want()
        le.compare(ctx, s, expected, got, FAMILIES)
        mine = le.observe_tuples(ctx, s, expected, FAMILIES)
        if case['route'] == 'pipe':
            ctx.count('piped')
        ctx.count('recipients', sum('R' in t.codes for t in mine))
        if any(r[2] in ('AND', 'OR') for r in s):
            ctx.count('conjoined')
        verbs = {t.words[1] for t in expected if len(t.words) > 1}
        ctx.count('barred_verbs', sum(r[1] == 'VERB' for r in s) > len(verbs))
        if len(mine) > 1:
            ctx.nontrivial(sorted((t.words, t.codes) for t in mine))
            ctx.sample({'text': le.text(s), 'tuples': le.show(le.word_level(got))})


KINDS = {'clauses': Kind(le.gen(_PROFILES), check, 8000, 60000)}
