"""Active and passive forms."""
from vlib import gen_clauses as gc, logic_env as le
from vlib.core import Kind

RULE = ('Annotated sentences with objects (conjoined, in relative clauses, under infinitives), particles, irregular and regular participles, and participles with agents introduced by "by" or other words, as attribute or after a copula, by two '
        'public routes. The oracle compares noun-be-participle and agent-verb-noun tuples, and the code of every adjective, word by word. Non-trivial: at least two such tuples.')
REQUIRE = {'sentences': 8000, 'tuples_passive': 5000, 'tuples_active': 600, 'distinct_nontrivial': 800, 'with_particles': 700, 'have_get': 300, 'adjectives': 2000, 'piped': 2000, 'long_lists': 200}
ANCHORS = ['semantics/semantic_tuple_extractor.py', 'syntax/arg_finder.py', 'normalization/canonicalizer.py', 'normalization/inflector.py']
FAMILIES = ('passive', 'active')
setup = le.setup

_PROFILES = [
    gc.profile(p_obj=.95, p_cconj=.3, p_copula=.05, p_part=.35, p_light=.2),
    gc.profile(p_copula=.8, p_pp=.2, p_agent=.9, p_cconj=.3, p_part=.25),
    gc.profile(p_pp=.6, p_agent=.9, p_pron=.1, p_part=.25),
    gc.profile(p_rel=.5, p_obj=.9, p_copula=.3, p_agent=.7, p_clause=.3),
]


def check(ctx, case):
    for s, want, got in le.run(ctx, case):
        expected = want()
        le.compare(ctx, s, expected, got, FAMILIES)
        mine = le.observe_tuples(ctx, s, expected, FAMILIES)
        if case['route'] == 'pipe':
            ctx.count('piped')
        # Participles and other adjectives
        codes = {}
        for t in expected:
            if t.codes[-1] in 'AL':
                codes.setdefault((t.words[:-1], t.words[-1]), set()).add(t.codes[-1])
        for w, c, _ in got:
            if c[-1] in 'AL' and (w[:-1], w[-1]) in codes:
                ctx.count('adjectives')
                ctx.check(c[-1] in codes[w[:-1], w[-1]], 'code of an adjective', sentence=s, tuple=(w, c), expected=sorted(codes[w[:-1], w[-1]]))
        ctx.count('with_particles', sum(' ' in t.words[-1] for t in mine if t.family == 'passive'))
        ctx.count('have_get', sum(t.family == 'pred' and t.codes[1:2] == 'T' and t.words[1] in ('have', 'get') for t in expected))
        if len(mine) > 1:
            ctx.nontrivial(sorted((t.words, t.codes) for t in mine))
            ctx.sample({'text': le.text(s), 'tuples': le.show(le.word_level(got))})


KINDS = {'voices': Kind(le.gen(_PROFILES), check, 8000, 60000)}
