"""Sentence boundaries: exactly at the top-level enders, line breaks and periods that close a quotation."""
from vlib import gen_text as gt, ref_tokens as rt
from vlib.core import Kind

RULE = ('Texts built line by line from sentences of known tokens: words, whole and cut units, quotations and brackets with '
        'enders inside (also quotations inside brackets), closed by . ? ! : ... ?! or by a period inside a quotation (also glued to what follows), or by the end of the line; '
        'empty quotations and brackets, more than ten per line, unbalanced marks and marks that protect nothing ([ { and single quotes); '
        'texts of hundreds of lines; also with a custom tokenizer. The oracle is the list of sentences known by construction; non-trivial when at least '
        'two sentences or a quotation or bracket.')
REQUIRE = {'boundaries': 10000, 'protected_enders': 2000, 'distinct_nontrivial': 3000, 'custom_tokenizer': 500, 'bare': 400, 'open_marks': 400, 'glued': 300, 'many_quotes': 50, 'long': 30, 'many_sentences': 8}
ANCHORS = ['preprocessing/sentencizer.py']

_T = {}
_WHOLE = ['acronym', 'decimal', 'thousands', 'title', 'abbreviation', 'initial', 'comparator', 'n', 'dotted', 'misc']
_SPLIT = ['comma', 'comma_glued', 'slash', 'percent', 'plus', 'star', 'angle', 'amp', 'clitic', 'plural_possessive', 'mid_quote', 'cannot',
          'dash']


def setup(ctx):
    import scrappybara as sb
    _T['sb'] = sb
    _T['sent'] = sb.Sentencizer()


class _Builder(object):

    def __init__(self, rng):
        self.rng = rng
        self.inner_enders = self.quotes = self.bare = self.open_marks = self.glued = self.long = 0

    def items(self, n, start=None):
        """Plain words and units; starts and ends with a plain word"""
        rng = self.rng
        parts, toks = [], []
        w, t = rt.u_capital(rng) if start == 'cap' or (start is None and rng.random() < .4) else rt.u_word(rng)
        if start == 'cap' and rng.random() < .05:
            w = rng.choice(['%dth', '%ds', '%dmm', '%dD']) % rng.randint(1, 2000)
            t = [w]
        parts.append(w)
        toks.extend(t)
        for _ in range(n):
            if rng.random() < 0.5:
                name = rng.choice(_WHOLE + _SPLIT)
                text, tk, nxt = (rt.WHOLE.get(name) if name in _WHOLE else rt.SPLIT.get(name))(rng)
                parts.append(text)
                toks.extend(tk)
            else:
                nxt = 'any'
            w, t = rt.u_capital(rng) if nxt == 'cap' else rt.u_word(rng)
            parts.append(w)
            toks.extend(t)
        return parts, toks

    def inner(self, final_period=False):
        """Content of a quotation or bracket: may hold several sentences"""
        rng = self.rng
        parts, toks = self.items(rng.randint(0, 2))
        for _ in range(rng.choice([0, 0, 1, 2])):
            e = rng.choice(['.', '?', '!', ':', '...', '?!'])
            parts[-1] += e
            toks.append(e)
            self.inner_enders += 1
            p, t = self.items(rng.randint(0, 2), start='cap')
            parts += p
            toks += t
        if final_period:
            parts[-1] += '.'
            toks.append('.')
        elif rng.random() < 0.3:
            e = rng.choice(['?', '!', '?!'])
            parts[-1] += e
            toks.append(e)
            self.inner_enders += 1
        return ' '.join(parts), toks

    def quote(self, final_period=False):
        rng = self.rng
        self.quotes += 1
        if rng.random() < .1:
            # Nothing, or only punctuation
            text, toks = rng.choice([('.', ['.']), ('...', ['...'])] if final_period else [('', []), ('', []), (' ', []), ('?', ['?']), ('!', ['!']), (' ? ', ['?'])])
            self.bare += 1
            return '"' + text + '"', ['"'] + toks + ['"']
        text, toks = self.inner(final_period)
        if rng.random() < .01:
            # Very long
            p, t = self.items(0, 'cap')
            for _ in range(rng.choice([30, 100, 300])):
                q, u = self.items(1)
                p, t = p + q, t + u
            text, toks = ' '.join(p) + '! ' + text[0].upper() + text[1:], t + ['!'] + [toks[0][0].upper() + toks[0][1:]] + toks[1:]
            self.inner_enders += 1
            self.long += 1
        if rng.random() < .1:
            p, t = self.items(0, 'cap')
            b, bt = self.inner()
            text, toks = p[0] + ' (' + b + ') ' + text, t + ['('] + bt + [')'] + toks
            self.inner_enders += 1
        return '"' + text + '"', ['"'] + toks + ['"']

    def bracket(self):
        rng = self.rng
        if rng.random() < .1:
            self.bare += 1
            text, toks = rng.choice([('', []), (' ', []), ('?', ['?']), ('.', ['.']), ('!', ['!']), ('...', ['...'])])
            return '(' + text + ')', ['('] + toks + [')']
        text, toks = self.inner()
        r = rng.random()
        if r < 0.35:
            q, qt = self.quote(final_period=rng.random() < 0.5)
            p, pt = self.items(rng.randint(0, 1))
            text, toks = text + ' ' + q + ' ' + ' '.join(p), toks + qt + pt
        if rng.random() < 0.3:
            text += '.'
            toks = toks + ['.']
            self.inner_enders += 1
        return '(' + text + ')', ['('] + toks + [')']

    def sentence(self, start):
        """Returns text, tokens, whether it is closed, what has to follow"""
        rng = self.rng
        parts, toks = self.items(rng.randint(0, 3), start)
        for _ in range(rng.choice([0, 0, 0, 1, 2]) if rng.random() < .97 else rng.choice([rng.randint(8, 30)] * 4 + [rng.randint(95, 130)])):
            text, tk = self.quote() if rng.random() < 0.5 else self.bracket()
            toks += tk
            p, t = self.items(rng.randint(0, 2))
            toks += t
            r = rng.random()
            if r < .1:
                parts[-1] += text + p.pop(0)
            elif r < .2:
                parts[-1] += text
            elif r < .3:
                parts.append(text + p.pop(0))
            else:
                parts.append(text)
            parts += p
        if rng.random() < .08:
            parts[-1] += '…'
            toks.append('…')
            p, t = self.items(0)
            parts += p
            toks += t
        r = rng.random()
        if r < 0.2:
            text, tk = self.quote(final_period=True)
            if rng.random() < .15:
                # Whatever is glued to the quotation starts the next sentence
                self.glued += 1
                return ' '.join(parts + [text]), toks + tk, True, 'glue'
            return ' '.join(parts + [text]), toks + tk, True, None
        if r < 0.3:
            # The sentence ends right after a quotation or bracket
            text, tk = self.quote() if rng.random() < 0.5 else self.bracket()
            e = rng.choice(['.', '?', '!'])
            return ' '.join(parts + [text]) + e, toks + tk + [e], True, 'cap'
        e = rng.choice(['.', '.', '.', '.', '?', '!', ':', '...', '?!', '!!!', '..', '??', '!?!', '....', '!!!!!', '.......', '?!?!?!', '?????????', '!' * rng.randint(4, 40)])
        nxt = 'cap' if e in ('.', '..') else None
        if e in ('?', '!', '?!', '!!!', '??') and rng.random() < .1:
            nxt = 'glue'
            self.glued += 1
        return ' '.join(parts) + (' ' if rng.random() < .07 else '') + e, toks + [e], True, nxt

    def open_mark(self, kind, start):
        """Two sentences around marks that protect nothing"""
        rng = self.rng
        self.open_marks += 1
        a, at = self.items(rng.randint(0, 1), start)
        b, bt = self.items(0)
        c, ct = self.items(rng.randint(0, 1), 'cap')
        d, dt = self.items(0)
        while b[0][0] in "sn'":
            b, bt = self.items(0, 'cap')
        x, y = {'"': ('"', ''), '(': ('(', ''), ')': (')', ''), '[': '[]', '{': '{}', "'": "''"}[kind]
        e = rng.choice('.?!')
        return ('%s %s%s%s %s%s %s.' % (' '.join(a), x, ' '.join(b), e, ' '.join(c), y, ' '.join(d)),
                [at + [x] + bt + [e], ct + ([y] if y else []) + dt + ['.']])


def _gen_large(rng, ctx):
    return _gen(rng, ctx, rng.choice([120, 600, 1100]))


def _gen(rng, ctx, n=None):
    b = _Builder(rng)
    lines, sents = [], []
    for _ in range(n or rng.choice([1, 1, 2, 4])):
        texts, start = [], None
        if rng.random() < .05:
            text, two = b.open_mark(')', None)
            texts += [text, ' ']
            sents += two
            start = 'cap'
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            if rng.random() < .04:
                if start == 'glue':
                    texts.append(' ')
                text, two = b.open_mark(rng.choice("[{'"), 'cap')
                texts += [text, ' ']
                sents += two
                start = 'cap'
            text, toks, closed, nxt = b.sentence('cap' if start == 'glue' else start)
            texts += [text] if nxt == 'glue' else [text, ' ']
            sents.append(toks)
            start = nxt
        if start == 'glue' or rng.random() < 0.4:
            p, t = b.items(rng.randint(0, 2), 'cap' if start == 'glue' else start)
            texts += [' '.join(p), ' ']
            sents.append(t)
        elif rng.random() < .06:
            text, two = b.open_mark(rng.choice('"('), 'cap')
            texts += [text, ' ']
            sents += two
        lines.append(''.join(texts[:-1] if texts[-1] == ' ' else texts))
    text = lines[0]
    for line in lines[1:]:
        text += rng.choice(['\n', '\n\n', '\r\n', '\t', ' \n', '\n  ', '\n \n\n', '\r', '\r', '\t\t', '\n\r', '\r\r', ' \r ', '\t\n', '\n\t', '\r\n\r\n', '  \t ', '\n\u3000', '\xa0\n', '\n\xa0\xa0', '\u2003\t', '\r\u3000\n', '\n\x0c']) + line
    if rng.random() < 0.1:
        text += rng.choice(['\n', ' ', '\n\n'])
    return {'text': text, 'sentences': sents, 'inner': b.inner_enders, 'quotes': b.quotes, 'bare': b.bare, 'open_marks': b.open_marks, 'glued': b.glued, 'long': b.long}


def _gen_custom(rng, ctx):
    """Texts whose tokens are blank-separated, for a tokenizer that just splits on blanks"""
    sents, out, inner = [], [], 0
    for _ in range(rng.randint(1, 5)):
        toks = []
        for _ in range(rng.randint(1, 5)):
            r = rng.random()
            if r < 0.2:
                c = [gt.plain_word(rng) for _ in range(rng.randint(1, 3))] + rng.choice([[], ['!'], ['?', gt.plain_word(rng)]])
                inner += 1
                toks += ['"'] + c + ['"']
            elif r < 0.4:
                c = [gt.plain_word(rng) for _ in range(rng.randint(1, 3))] + rng.choice([[], ['.'], ['?', gt.plain_word(rng)]])
                inner += 1
                toks += ['('] + c + [')']
            else:
                toks.append(rng.choice([gt.plain_word(rng), 'x.y', 'Mr.', "don't", 'a,b', '1.', 'cannot', '…']))
        toks.append(rng.choice(['.', '?', '!', ':', '..', '?!', '::', ':.', '?!:', '!:', '...?']))
        sents.append(toks)
        out.extend(toks)
    return {'text': ' '.join(out), 'sentences': sents, 'inner': inner}


def _check(ctx, case, sent=None):
    observed = (sent or _T['sent'])(case['text'])
    ctx.equal(case['sentences'], observed, 'sentences differ from the ones the text was built from', text=case['text'])
    ctx.count('boundaries', len(observed))
    ctx.count('many_sentences', len(observed) > 1000)
    ctx.count('protected_enders', case['inner'])
    for name in ('bare', 'open_marks', 'glued', 'long'):
        ctx.count(name, case.get(name, 0))
    ctx.count('many_quotes', case.get('quotes', 0) > 10)
    if len(observed) > 1 or case['inner']:
        ctx.nontrivial(case['text'])
        ctx.sample(case)


def _check_custom(ctx, case):
    calls = []

    def tokenizer(text):
        calls.append(text)
        return text.split()

    _check(ctx, case, _T['sb'].Sentencizer(tokenizer))
    ctx.check(calls, 'the tokenizer given to the sentencizer was not used')
    ctx.count('custom_tokenizer')


KINDS = {'lines': Kind(_gen, _check, 16000, 400000), 'large': Kind(_gen_large, _check, 40, 1000), 'custom': Kind(_gen_custom, _check_custom, 6000, 100000)}
