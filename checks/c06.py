"""Tokenizer conservation: no character of the text is lost, invented or reordered; tokens are well formed."""
from vlib import gen_text as gt, ref_tokens as rt
from vlib.core import Kind

RULE = ('Texts assembled from fragments of every class the tokenizer distinguishes (words, URLs, numbers, quotes, dashes, '
        'brackets, clitics, abbreviations, Unicode, constants and regex samples mined from the sources), joined by every kind '
        'of blank or nothing; also texts of up to 100 kB, tokens of thousands of characters and hundreds of URLs. The monitor aligns the concatenated tokens with the text character by character. Non-trivial: '
        'at least two tokens and some token differs from the blank-separated chunks.')
REQUIRE = {'tokens': 20000, 'distinct_nontrivial': 5000, 'protected_texts': 300, 'long_texts': 20, 'long_tokens': 30}
ANCHORS = ['preprocessing/tokenizer.py', 'preprocessing/sanitization.py']

_T = {}


def setup(ctx):
    import scrappybara as sb
    _T['tok'] = sb.Tokenizer()


def _gen(rng, ctx):
    return gt.hostile(rng)


def _gen_units(rng, ctx):
    return rt.compose(rng, dict(rt.WHOLE, **rt.SPLIT))[0]


def _gen_large(rng, ctx):
    """Long texts, long tokens, hundreds of protected texts"""
    r = rng.random()
    if r < .3:
        return gt.scrub(''.join(rng.choice([' ', '', ' ', '\n', '. ', ' ']) + gt.hostile(rng) for _ in range(rng.choice([150, 400, 800]))))
    if r < .5:
        return ' '.join(gt.plain_word(rng) for _ in range(rng.choice([2000, 9000])))
    if r < .7:
        u = rng.choice([gt.word(rng, 3, 5), gt.LOWER, '-', 'ab-', 'x.y', '_', '日本', '!', '.', 'http://' + gt.word(rng) + '.com/', '=', '%d' % rng.randint(0, 99), "'", 'A.'])
        return gt.scrub('%s %s %s' % (gt.hostile(rng), u * (rng.choice([250, 700, 2500]) // len(u)), gt.hostile(rng)))
    return _gen_repeat(rng, ctx, rng.choice([110, 260, 600]))


def _gen_repeat(rng, ctx, n=None):
    """Many, repeated and nested protected texts in one input"""
    frags = [rt.w_url(rng)[0], rt.w_domain_path(rng)[0], ':)', ';-(', " 'n' ", " n' "]
    frags += [f + rng.choice(['', '.', ',', '.au/page', '/x', ')']) for f in frags[:2]]
    n = n or rng.randint(2, 30)
    return gt.scrub(''.join(rng.choice(frags) + rng.choice([' ', ' ', ' and ', '']) for _ in range(n)))


def _check(ctx, text):
    tokens = _T['tok'](text)
    problem = rt.bad_token(tokens)
    ctx.check(problem is None, 'malformed tokens: %s' % problem, text=text, tokens=tokens)
    problem = rt.conserved(text, tokens)
    ctx.check(problem is None, 'characters not conserved: %s' % problem, text=text, tokens=tokens)
    ctx.count('tokens', len(tokens))
    ctx.count('long_texts', len(text) > 20000)
    ctx.count('long_tokens', max(map(len, tokens), default=0) > 200)
    if '://' in text or 'www.' in text or ':)' in text:
        ctx.count('protected_texts')
    if len(tokens) > 1 and tokens != text.split():
        ctx.nontrivial()
        ctx.sample({'text': text[:200], 'tokens': tokens[:40]})


KINDS = {
    'hostile': Kind(_gen, _check, 60000, 1500000),
    'units': Kind(_gen_units, _check, 8000, 200000),
    'repeat': Kind(_gen_repeat, _check, 6000, 150000),
    'large': Kind(_gen_large, _check, 240, 5000),
}
