"""Property tuples: attributes, copulas, naming, participles."""
from vlib import gen_clauses as gc, logic_env as le
from vlib.core import Kind

RULE = ('Annotated sentences with attributes (before and after the noun, conjoined), copulas with nominal, adjectival, participial, marked and conjoined properties, naming complements, properties of participles, comparisons, and '
        'attributes whose tag contradicts the dictionaries, by two public routes. The oracle compares the property tuples word by word. Non-trivial: at least two property tuples.')
REQUIRE = {'sentences': 8000, 'tuples_prop': 9000, 'distinct_nontrivial': 1500, 'shapes': 15, 'naming': 250, 'nominal': 1200, 'retagged': 300, 'compared': 100, 'piped': 2000, 'long_lists': 200}
ANCHORS = ['semantics/semantic_tuple_extractor.py', 'syntax/arg_finder.py', 'syntax/fixer.py']
FAMILIES = ('prop',)
setup = le.setup

_PROFILES = [
    gc.profile(p_copula=.7, p_adj=.4, p_cconj=.3, p_flip=.25),
    gc.profile(p_adj=.7, p_cmp=.3, p_flip=.3, p_pron=.05, p_name=.1),
    gc.profile(p_iprop=.5, p_obj=.9, p_copula=.1, p_cconj=.25, p_part=.3),
    gc.profile(p_naming=.6, p_pp=.3, p_pron=.05, p_copula=.3),
    gc.profile(p_rel=.4, p_copula=.6, p_propmark=.25),
]


def check(ctx, case):
    env = ctx.env
    for s, want, got in le.run(ctx, case):
        expected = want()
        le.compare(ctx, s, expected, got, FAMILIES)
        mine = le.observe_tuples(ctx, s, expected, FAMILIES)
        if case['route'] == 'pipe':
            ctx.count('piped')
        for t in mine:
            ctx.count('naming', t.words[1].startswith('be '))
            ctx.count('nominal', t.codes[2] not in 'AL')
        words = {w for t in mine for w in (t.words[0], t.words[2])}
        for token, tag, dep, parent in s:
            low = token.lower()
            if low in words and ((tag == 'ADJ' and low in env.tables['nouns']) or (tag in ('NOUN', 'PROPN', 'NUM') and low in env.tables['adjs'])):
                ctx.count('retagged')
            if dep == 'CMARK':
                ctx.count('compared')
        if len(mine) > 1:
            ctx.nontrivial(sorted((t.words, t.codes) for t in mine))
            ctx.sample({'text': le.text(s), 'tuples': le.show(le.word_level(got))})


KINDS = {'properties': Kind(le.gen(_PROFILES), check, 8000, 60000)}
