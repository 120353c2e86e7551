"""Text that must not be cut stays one token."""
from vlib import ref_tokens as rt
from vlib.core import Kind

RULE = ('Texts built from plain words and units that have to stay whole (URLs, domains with path, acronyms, decimals, thousands, '
        'titles, abbreviations, initials, comparators, smileys, shortened "and", feet and inches, ampersand acronyms, '
        'punctuation runs, dotted names, hashtags, times...), random instances, alone and up to 14 and sometimes hundreds per text, repeated. The oracle '
        'is the list of tokens known by construction. Every text has at least one such unit; distinct by text.')
REQUIRE = {'distinct_nontrivial': 4000, 'long_texts': 20}
ANCHORS = ['preprocessing/tokenizer.py']

_T = {}


def setup(ctx):
    import scrappybara as sb
    _T['tok'] = sb.Tokenizer()


def _gen(rng, ctx):
    text, tokens, used = rt.compose(rng, rt.WHOLE)
    return {'text': text, 'tokens': tokens, 'units': used}


def _gen_same(rng, ctx):
    """Many units of one class"""
    name = rng.choice(sorted(rt.WHOLE))
    text, tokens, used = rt.compose(rng, rt.WHOLE, [name], n=rng.randint(1, 16))
    return {'text': text, 'tokens': tokens, 'units': used}


def _gen_large(rng, ctx):
    text, tokens, used = rt.compose(rng, rt.WHOLE, n=rng.choice([120, 300, 900]))
    return {'text': text, 'tokens': tokens, 'units': used}


def check(ctx, case):
    observed = _T['tok'](case['text'])
    ctx.equal(case['tokens'], observed, 'tokens differ from the ones the text was built from', text=case['text'],
              units=case['units'])
    for u in set(case['units']):
        ctx.count('unit:' + u)
    ctx.count('long_texts', len(case['units']) > 100)
    ctx.nontrivial(case['text'])
    ctx.sample(case)


KINDS = {'mixed': Kind(_gen, check, 50000, 800000), 'same': Kind(_gen_same, check, 40000, 600000),
         'large': Kind(_gen_large, check, 120, 3000)}
