"""Segmentation: punctuation, clitics and joined words are cut, and only them."""
from vlib import ref_tokens as rt
from vlib.core import Kind

RULE = ('Texts built from plain words and units that have to be cut (sentence enders, commas, brackets, quotes, colons, slashes, '
        'percent, plus, star, angle brackets, ampersands, clitics, possessives, "cannot", bullets, dashes, typographic quotes), '
        'mixed with whole units, random instances, up to hundreds per text. The oracle is the list of tokens known by construction; distinct by text.')
REQUIRE = {'distinct_nontrivial': 4000, 'long_texts': 20}
ANCHORS = ['preprocessing/tokenizer.py']

_T = {}


def setup(ctx):
    import scrappybara as sb
    _T['tok'] = sb.Tokenizer()


def _gen(rng, ctx):
    text, tokens, used = rt.compose(rng, rt.SPLIT)
    return {'text': text, 'tokens': tokens, 'units': used}


def _gen_same(rng, ctx):
    name = rng.choice(sorted(rt.SPLIT))
    text, tokens, used = rt.compose(rng, rt.SPLIT, [name], n=rng.randint(1, 16))
    return {'text': text, 'tokens': tokens, 'units': used}


def _gen_all(rng, ctx):
    text, tokens, used = rt.compose(rng, dict(rt.WHOLE, **rt.SPLIT))
    return {'text': text, 'tokens': tokens, 'units': used}


def _gen_large(rng, ctx):
    text, tokens, used = rt.compose(rng, dict(rt.WHOLE, **rt.SPLIT), n=rng.choice([120, 300, 900]))
    return {'text': text, 'tokens': tokens, 'units': used}


def check(ctx, case):
    observed = _T['tok'](case['text'])
    ctx.equal(case['tokens'], observed, 'tokens differ from the ones the text was built from', text=case['text'],
              units=case['units'])
    for u in set(case['units']):
        ctx.count('unit:' + u)
    ctx.count('long_texts', len(case['units']) > 100)
    ctx.nontrivial(case['text'])
    ctx.sample(case)


KINDS = {'mixed': Kind(_gen, check, 40000, 700000), 'same': Kind(_gen_same, check, 40000, 600000),
         'all': Kind(_gen_all, check, 16000, 300000),
         'large': Kind(_gen_large, check, 120, 3000)}
