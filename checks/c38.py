"""Marked texts can be taken apart again."""
from vlib.core import Kind

RULE = ('Names, words and attributes of any characters except the marks that separate them (closing brackets too, blank, empty, non-ASCII, digits, objects that are not strings, None), 0 to 6 (sometimes 120) of them; put together and taken apart. '
        'Non-trivial: two parts or more, one of them absent (None) or empty.')
REQUIRE = {'functions': 8000, 'pairs': 4000, 'attributes': 8000, 'not_pairs': 3000, 'absent': 5000, 'many_parts': 200, 'distinct_nontrivial': 3000}
ANCHORS = ['utils/text.py']

_WORDS = ['cat', 'hot dog', '', ' ', ' cat', 'cat ', ' a  b ', '\tx', 'x\n', 'été', '日本', 'a, b', 'x"y', "it's", '42', 'A-b', '»'[:0], 'é\u0301', 'tab\there', 'None', '-', '.', 'ab', 'ba', ')', 'f)', 'x))', ') y']


def _part(rng):
    k = rng.random()
    if k < .2:
        return None
    if k < .3:
        return rng.choice([0, 7, -3, 2.5, True, False])
    return rng.choice(_WORDS) if k < .8 else ''.join(rng.choice('abc ,.é"\'|=_)') for _ in range(rng.randint(0, 8)))


def _gen(rng, ctx):
    return {'name': rng.choice(['f', 'PAST', '', 'two words', 'é', 'x.y', ' f', 'f ', 'lower', 'UPPER', '1']), 'parts': [[_part(rng) for _ in range(rng.choice([0, 1, 2, 2, 2, 3, 6] if rng.random() < .98 else [12, 30, 120]))] for _ in range(8)]}


def _check(ctx, case):
    from scrappybara.utils import text as T
    name = case['name']
    for parts in case['parts']:
        kept = [str(p) for p in parts if p is not None]
        marked = T.functionalize(name, *parts)
        ctx.equal('%s(%s)' % (name, ', '.join(kept)), marked, 'functionalize', parts=parts)
        ctx.equal((name, ', '.join(kept)), tuple(T.defunctionalize(marked)), 'defunctionalize', text=marked)
        ctx.count('functions')
        ctx.count('many_parts', len(parts) > 10)
        joined = T.associate(*parts)
        apart = T.dissociate(joined)
        if len(kept) == 2:
            ctx.equal(tuple(kept), tuple(apart), 'dissociate', text=joined)
            ctx.count('pairs')
        else:
            ctx.equal(None, apart, 'dissociate what is not a pair', text=joined)
            ctx.count('not_pairs')
        if kept:
            whole = T.attach_attributes(kept[0], *parts)
            ctx.equal([kept[0]] + kept, list(T.detach_attributes(whole)), 'detach_attributes', text=whole)
            ctx.count('attributes')
        ctx.count('absent', len(parts) - len(kept))
        if len(parts) > 1 and (len(kept) < len(parts) or '' in kept):
            ctx.nontrivial([name, [repr(p) for p in parts]])
    ctx.sample(case)


KINDS = {'parts': Kind(_gen, _check, 25000, 100000)}
