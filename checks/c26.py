"""Clause objects: quadruples and quintuples."""
from vlib import gen_clauses as gc, logic_env as le
from vlib.core import Kind

RULE = ('Annotated sentences with clause objects (inner subject missing, nominal, conjoined, reflexive or verbal; inner object, property, both or none; infinitives; nested twice; conjoined inner and outer verbs), by two public routes. '
        'The oracle compares the quadruples and quintuples word by word, and refuses shorter tuples of the inner verb. Non-trivial: at least one clause tuple; distinct by tuples.')
REQUIRE = {'sentences': 8000, 'tuples_clause': 6000, 'distinct_nontrivial': 1500, 'shapes': 60, 'borrowed_subject': 800, 'inner_objects': 700, 'inner_properties': 500, 'intransitive_inner': 700, 'piped': 2000, 'long_lists': 200}
ANCHORS = ['semantics/semantic_tuple_extractor.py', 'syntax/arg_finder.py', 'syntax/node.py']
FAMILIES = ('clause',)
setup = le.setup

_PROFILES = [
    gc.profile(p_clause=.9, p_copula=.15, p_vconj=.1, p_rel=0., p_adj=.05),
    gc.profile(p_clause=.7, p_copula=.4, p_cconj=.3, p_reflexive=.2),
    gc.profile(p_clause=.8, p_copula=.1, p_vconj=.35, p_cconj=.2, p_light=.4, p_inf=.7, depth=3),
    gc.profile(p_clause=.8, p_copula=.3, p_neg=.3, p_exist=.1, p_iprop=.1, p_iobj=.2),
]


def check(ctx, case):
    for s, want, got in le.run(ctx, case):
        expected = want()
        inner = {t.words[3] for t in expected if t.family == 'clause'}
        le.compare(ctx, s, expected, got, FAMILIES, also=lambda w, c: le.POSSIBLE['pred'](w, c) and w[1] in inner)
        mine = le.observe_tuples(ctx, s, expected, FAMILIES)
        if case['route'] == 'pipe':
            ctx.count('piped')
        for t in mine:
            if t.words[0] == t.words[2]:
                ctx.count('borrowed_subject')
            ctx.count({'I': 'intransitive_inner', 'T': 'inner_objects', 'C': 'inner_properties'}[t.codes[3]])
        if mine:
            ctx.nontrivial(sorted((t.words, t.codes) for t in mine))
            ctx.sample({'text': le.text(s), 'tuples': le.show(le.word_level(got))})


KINDS = {'clauses': Kind(le.gen(_PROFILES), check, 8000, 60000)}
