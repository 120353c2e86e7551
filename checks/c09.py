"""Sentencizer: total, conserves the text, no empty sentence or token, no internal marker."""
import re

from vlib import gen_text as gt, ref_tokens as rt
from vlib.core import Kind

RULE = ('Hostile multi-line texts (same fragments as for the tokenizer, plus nested and unbalanced quotes and brackets, periods '
        'closing quotations, the symbols the implementation uses for its own markers, up to two thousand quotations and brackets, look-alikes of markers that stand for nothing in the text, blank lines), up to 100 kB and hundreds of lines. The monitor aligns the '
        'concatenation of all sentences with the text character by character. Non-trivial: a quote, a bracket or at least two '
        'sentences.')
REQUIRE = {'sentences': 5000, 'distinct_nontrivial': 3000, 'texts_with_blocks': 2000, 'many_blocks': 30, 'lookalikes': 1500, 'long_texts': 10, 'many_lines': 10}
ANCHORS = ['preprocessing/sentencizer.py', 'preprocessing/sanitization.py']

_T = {}


def setup(ctx):
    import scrappybara as sb
    _T['sent'] = sb.Sentencizer()


def _gen(rng, ctx):
    return gt.hostile(rng)


def _nest(rng, depth=0):
    n = rng.randint(0, 4)
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.25 and depth < 3:
            out.append('"' + _nest(rng, depth + 1) + rng.choice(['"', '."', '?"', '".', '"', '']))
        elif r < 0.5 and depth < 3:
            out.append('(' + _nest(rng, depth + 1) + rng.choice([')', '.)', ').', ')', '']))
        elif r < 0.6:
            out.append(rng.choice(['༺', '⦅', '⦅x⦆', '༺ ༻', '"', ')', '(', '༺1', '⦆2', '."', '".', '"."']))
        elif r < 0.75:
            out.append(gt.hostile(rng, max_frags=3))
        else:
            out.append(gt.plain_word(rng) + rng.choice(['', '.', '?', '!', ':', '...']))
    return rng.choice([' ', ' ', ' ', '']).join(out)


def _gen_nested(rng, ctx):
    return gt.scrub(rng.choice(['\n', ' ', '\n\n']).join(_nest(rng) for _ in range(rng.randint(1, 4))))


def _gen_many(rng, ctx):
    """More than ten, a hundred or a thousand quotations and brackets; also text that looks like a marker and is none"""
    n, out = rng.choice([9, 10, 11, 12, 30, 99, 100, 101, 120, 250, 1002, 2100]), []
    for i in range(n):
        x, y = rng.choice(['""', '()'])
        inner = ' '.join(gt.plain_word(rng) for _ in range(rng.choice([0, 1, 1, 2]))) + rng.choice(['', '', '.', '?'])
        out.append((gt.plain_word(rng) + ' ' if rng.random() < .3 else '') + x + inner + y + rng.choice(['', '', '', '.', '!']))
    return rng.choice([' ', ' ', '\n']).join(out)


def _gen_large(rng, ctx):
    """Long texts of many lines"""
    n = rng.choice([120, 300, 700])
    if rng.random() < .5:
        return gt.scrub(''.join(rng.choice(['\n', '\n', '\n\n', ' ', '. ', '\t']) + gt.hostile(rng) for _ in range(n)))
    one = rng.choice(['\n', '\r\n', '\n\n', '\t'])
    return one.join(' '.join(gt.plain_word(rng) for _ in range(rng.randint(1, 12))) + rng.choice(['', '.', '?']) for _ in range(n * 2))


def _gen_lookalike(rng, ctx):
    """Symbols of the implementation around a number of no quotation or bracket of the text"""
    parts = [rng.choice([gt.plain_word(rng), gt.plain_word(rng) + '.', '"%s"' % gt.plain_word(rng), '(%s)' % gt.plain_word(rng), '"%s."' % gt.plain_word(rng)]) for _ in range(rng.randint(0, 12))]
    quotes, brackets = sum(p[0] == '"' for p in parts), sum(p[0] == '(' for p in parts)
    for _ in range(rng.choice([1, 1, 2])):
        more = rng.choice([0, 0, 0, 1, 9, 90, 10 ** 6, 10 ** 30])
        mark = rng.choice(['༺%d༻' % (quotes + more), '⦅%d⦆' % (brackets + more)])
        at = rng.randrange(len(parts) + 1)
        if rng.random() < .7 or at == len(parts) or parts[at][0] not in '"(':
            parts.insert(at, mark)
        else:
            parts[at] = parts[at][0] + mark + ' ' + parts[at][1:]
    return {'lookalike': ' '.join(parts)}


def _check(ctx, text):
    known = isinstance(text, dict)
    text = text['lookalike'] if known else text
    ctx.count('lookalikes', known)
    ctx.count('long_texts', len(text) > 20000)
    ctx.count('many_lines', text.count('\n') > 500)
    ctx.count('many_blocks', text.count('"') // 2 + text.count('(') > 100)
    sents = _T['sent'](text)
    ctx.check(isinstance(sents, list), 'not a list', text=text, sentences=sents)
    for s in sents:
        problem = rt.bad_token(s) or (None if s else 'empty sentence')
        if problem is None and not known and any('¶' in t or re.search('༺[0-9]+༻|⦅[0-9]+⦆', t) for t in s):
            problem = 'internal marker in %r' % s
        ctx.check(problem is None, 'malformed sentence: %s' % problem, text=text, sentences=sents)
    problem = rt.conserved(text, [t for s in sents for t in s], '")')
    ctx.check(problem is None, 'characters not conserved: %s' % problem, text=text, sentences=sents)
    ctx.count('sentences', len(sents))
    ctx.count('tokens', sum(map(len, sents)))
    block = '"' in text or '(' in text
    if block:
        ctx.count('texts_with_blocks')
    if block or len(sents) > 1:
        ctx.nontrivial()
        ctx.sample({'text': text[:200], 'sentences': sents[:10]})


KINDS = {'hostile': Kind(_gen, _check, 24000, 600000), 'nested': Kind(_gen_nested, _check, 24000, 600000), 'many': Kind(_gen_many, _check, 160, 4000), 'large': Kind(_gen_large, _check, 120, 2500),
         'lookalike': Kind(_gen_lookalike, _check, 2000, 50000)}
