"""Oracles for tokens: conservation of the text, and constructive expectations (texts built from units whose tokens are
known)."""
import re

from vlib import gen_text as gt

_SINGLE = re.compile('[‘’′]')
_DOUBLE = re.compile('[“”″]')
_DASHES = re.compile('[–—]+')


def normalize(text):
    text = _SINGLE.sub("'", text)
    text = _DOUBLE.sub('"', text)
    return _DASHES.sub(' - ', text)


_STARS = re.compile(r"(?<=[a-z'\"])\*+(?=[a-z])", re.I)


def _options(norm, around):
    """position in norm => (length consumed, replacement) alternatives allowed besides the identity"""
    alts = {}
    lead = r'(?<=[\s%s])' % re.escape(around)
    for m in re.finditer(lead + r'''(\d[\d,.]*)'(?:(\d[\d,.]*)("))?''', norm):
        pos = m.end(1)
        alts.setdefault(pos, []).append((1, 'ft'))
        if m.group(3):
            alts.setdefault(m.start(3), []).append((1, 'in'))
    for m in re.finditer(lead + r'''(\d[\d,.]*)"''', norm):
        alts.setdefault(m.end(1), []).append((1, 'in'))
    for m in _STARS.finditer(norm):
        alts.setdefault(m.start(), []).append((len(m.group()), '*'))
    return alts


def conserved(text, tokens, around=''):
    """None when the tokens spell the text (blanks aside, with the documented normalisations), else a description"""
    norm = normalize(text)
    got = ''.join(tokens)
    alts = _options(norm, around)
    # States: positions in got reachable after consuming norm[:i]
    states = {0: {0}}
    n = len(norm)
    best = (0, 0)
    for i in range(n + 1):
        here = states.pop(i, None)
        if not here:
            continue
        if i == n:
            if len(got) in here:
                return None
            break
        best = (i, max(here))
        ch = norm[i]
        nxt = states.setdefault(i + 1, set())
        if ch.isspace():
            nxt |= here
        else:
            nxt.update(j + 1 for j in here if got[j:j + 1] == ch)
        for length, rep in alts.get(i, ()):
            states.setdefault(i + length, set()).update(j + len(rep) for j in here if got.startswith(rep, j))
    i, j = best
    return 'text %r... is not spelled by tokens %r...' % (norm[max(0, i - 15):i + 25], got[max(0, j - 15):j + 25])


def bad_token(tokens):
    """None, or a description of a malformed token list"""
    if not isinstance(tokens, list):
        return 'not a list: %r' % (tokens,)
    for t in tokens:
        if not isinstance(t, str):
            return 'token %r is not a string' % (t,)
        if not t:
            return 'empty token'
        if len(t.split()) != 1 or t.split()[0] != t:
            return 'token %r contains blanks' % t
        if re.search(r'_(?:R?NS[DGL]E?|PROTECTED_\d+)_', t):
            return 'token %r contains a reserved marker' % t
    return None


# Units ---------------------------------------------------------------------------
# A unit is (name, text, tokens, next) where next in {'any', 'cap', 'low'} tells what has to follow.


def u_word(r):
    w = gt.plain_word(r)
    return w, [w]


def u_capital(r):
    w = gt.capital(r)
    return w, [w]


def u_name(r):
    """A capitalised word of any shape"""
    w = gt.capital(r)
    w = r.choice([w, w, w[0], w[:2], "O'" + w, "D'" + w[:3], 'Mc' + w, w.upper(), w[:3].upper(), w + '-' + gt.capital(r), w + str(r.randint(1, 9)), w[0] + w[1:].upper()])
    return w, [w]


def _case(r, w):
    return r.choice([w, w, w.capitalize(), w.capitalize(), w.upper(), w[0] + w[1:].upper()])


# --- Units that have to stay whole


def w_url(r):
    u = gt.url(r)
    return u, [u], 'any'


def w_url_end(r):
    u = gt.url(r, path=False)
    return u + '.', [u, '.'], 'cap'


def w_domain_path(r):
    u = gt.word(r, 2, 8) + '.' + r.choice(['com', 'org', 'net', 'co.uk']) + '/' + r.choice(
        ['', gt.word(r), gt.word(r) + '/' + gt.word(r) + '.html', 'a;b', '?x=1&y=2', "it's", 'A(1)'])
    return u, [u], 'any'


def w_url_family(r):
    """URLs that start like one another"""
    base = r.choice(['http://%s.com', 'https://www.%s.org', 'www.%s.net', '%s.com/', 'HTTP://%s.co.uk']) % gt.word(r, 2, 6)
    tails = ['', '/', '/' + gt.word(r), ':80/', '/a:b', '/u@v', '/~x', '/100%25', '/p#s', '/%s?a=1;b=2' % gt.word(r), '/x', '/x(1)', '/xy;z', ':8080/x', 's/', '/x/y', '/x.html']
    if '://' in base and r.random() < .2:
        base = base.replace('://', '://%s:%s@' % (gt.word(r, 2, 5), r.choice([gt.word(r, 2, 5), str(r.randint(1, 999))])))
    urls = [base + r.choice(tails) for _ in range(r.randint(2, 4))]
    parts, toks = [], []
    for k, u in enumerate(urls):
        if k:
            w = gt.plain_word(r)
            parts.append(w)
            toks.append(w)
        parts.append(u)
        toks.append(u)
    return ' '.join(parts), toks, 'any'


def w_acronym(r):
    n = r.choice([2, 2, 3, 3, 4, 5, 6, 8]) if r.random() < .98 else r.choice([13, 26, 60])
    letters = ''.join(r.choice('ABCDEFGHJKLNOPQRSTUVWXYZ') for _ in range(n))
    a = '.'.join(letters if r.random() < 0.7 else letters.lower()) + '.'
    return a, [a], 'any'


def w_decimal(r):
    d = '%d.%d' % (r.randint(0, 9999), r.randint(0, 9999))
    return d, [d], 'any'


def w_thousands(r):
    d = '{:,}'.format(r.randint(1000, 99999999))
    if r.random() < 0.4:
        d += '.%02d' % r.randint(0, 99)
    return d, [d], 'any'


def w_title(r):
    t = _case(r, r.choice(gt.ABBR)) + '.'
    return t, [t], 'cap'


def w_abbreviation(r):
    """An abbreviation in the middle of a sentence keeps its dot"""
    t = gt.word(r, 3, 6) + '.'
    return t, [t], 'low'


def w_abbreviation_number(r):
    """An abbreviation before a number keeps its dot"""
    t = _case(r, r.choice(['no', 'vol', 'fig', 'pp', 'ch', 'sec', gt.word(r, 2, 6)])) + '.'
    n = r.choice([str(r.randint(0, 9999)), str(r.randint(10000, 10 ** 9)), '%d.%d' % (r.randint(0, 99), r.randint(0, 99)), '{:,}'.format(r.randint(1000, 99999))])
    return t + ' ' + n, [t, n], 'any'


def w_abbreviation_punct(r):
    """An abbreviation before other punctuation keeps its dot"""
    t = r.choice([gt.word(r, 2, 6), gt.capital(r), 'etc', 'Inc', 'Co', 'Ltd']) + '.'
    p = r.choice([',', ';', ':', ',', ';', '?', '!'])
    return t + r.choice(['', ' ']) + p, [t, p], 'low'


def w_initial(r):
    t = r.choice('ABCDEFGHJKLNOPQRSTUVWXYZ') + '.'
    return t, [t], 'cap'


def w_comparator(r):
    c = r.choice(['>=', '<=', '=>', '=<'])
    a, b = gt.plain_word(r), gt.plain_word(r)
    x, y = c
    t = r.choice(['%s %s%s %s', '%s%s%s%s', '%s %s %s %s', '%s%s %s%s', '%s %s%s%s']) % (a, x, y, b)
    return t, [a, c, b], 'any'


def w_smiley(r):
    s = r.choice([':', ';']) + r.choice(['', '-']) + r.choice([')', '('])
    return s, [s], 'any'


def w_n(r):
    s = r.choice(["'n'", "'n", "n'", "'N'", "N'"])
    a, b = gt.plain_word(r), gt.plain_word(r)
    return '%s %s %s' % (a, s, b), [a, s, b], 'any'


def w_feet(r):
    n = lambda: r.choice(['%d', '%d', '%d.5', '1,%03d', '%d.25', '1,%03d.5']) % r.randint(1, 11)
    a, b = n(), n()
    one, two = r.choice([("'", '"'), ("'", '"'), ('′', '″'), ('’', '”')])
    text, tok = r.choice([(a + one + b + two, '%sft%sin' % (a, b)), (a + one, a + 'ft'), (b + two, b + 'in'), (b + two, b + 'in')])
    return text, [tok], 'any'


def w_section(r):
    """Numbers with a dot after each"""
    t = ''.join('%d.' % r.choice([r.randint(0, 9), r.randint(10, 999)]) for _ in range(r.randint(2, 4) if r.random() < .98 else r.choice([9, 20, 50])))
    return t, [t], 'any'


def w_short(r):
    """Symbols between short words do not cut"""
    one = lambda: r.choice('abcdefghjklmnopqrtuvwxyzABCDEFGH')
    two = lambda: one() + r.choice('abcdefghjkl')
    t = r.choice([lambda: one() + '/' + one(), lambda: one() + '&' + one(), lambda: one() + '+' + one(), lambda: two() + '+' + two(), lambda: '%d:%02d' % (r.randint(0, 23), r.randint(0, 59)), lambda: one() + ':' + one(),
                  lambda: '%d/%d/%d' % (r.randint(1, 31), r.randint(1, 12), r.randint(1900, 2030)), lambda: '%d*%d' % (r.randint(1, 9), r.randint(1, 9)), lambda: '%d-%d' % (r.randint(1, 9), r.randint(1, 9)), lambda: "'s",
                  lambda: 'n/a', lambda: 'w/o', lambda: 'A/C', lambda: one() + "'" + gt.word(r, 3, 6), lambda: two() + "'" + r.choice([gt.word(r, 3, 6), 'an', 'if', 'oo']), lambda: gt.word(r, 3, 6).capitalize() + "'" + r.choice(['an', 'if', 'oo', 'in', 'er', 'ab']), lambda: gt.word(r, 3, 5) + '-' + gt.word(r, 2, 5), lambda: '~%d' % r.randint(1, 99), lambda: '@', lambda: '#%d' % r.randint(1, 9)])()
    return t, [t], 'any'


def _part(r, lo, hi):
    w = gt.word(r, lo, hi)
    while w.endswith('www'):
        w = gt.word(r, lo, hi)
    return w.capitalize() if r.random() < .4 else w


def _many(r):
    return r.randint(3, 4) if r.random() < .98 else r.choice([8, 16, 40])


def w_net(r):
    """Dotted names with a dot in front"""
    t = '.' + '.'.join(_part(r, 2, 6) for _ in range(_many(r)))
    return t, [t], 'any'


def w_amp(r):
    cap = lambda: r.choice('BCDEFGHJKLMNOPQRSTVWXYZ')
    a, b = cap(), cap()
    form = r.randint(0, 4)
    if form == 3:
        c = cap()
        return '%s %s & %s' % (a, b, c), ['%s%s&%s' % (a, b, c)], 'low'
    if form == 4:
        c = cap()
        return '%s & %s %s' % (a, b, c), ['%s&%s%s' % (a, b, c)], 'low'
    if form == 0:
        return '%s&%s' % (a, b), ['%s&%s' % (a, b)], 'low'
    if form == 1:
        return '%s & %s' % (a, b), ['%s&%s' % (a, b)], 'low'
    t = '%s%s&%s' % (a, b, cap())
    return t, [t], 'low'


def w_run(r):
    w = gt.plain_word(r)
    p = r.choice(['...', '....', '!!', '!!!', '?!', '??', '!?', '…', '……', '.' * r.randint(5, 30), '!' * r.randint(4, 20), '?' * r.randint(3, 20), '?!' * r.randint(2, 8)])
    return w + p, [w, p], 'any'


def w_dotted(r):
    d = '.'.join(_part(r, 2, 5) for _ in range(_many(r)))
    if r.random() < 0.5:
        d = '.'.join(str(r.randint(0, 20)) for _ in range(_many(r)))
    return d, [d], 'any'


def w_misc(r):
    n = r.randint(1, 99)
    d = r.choice(['$%d.%02d' % (n, r.randint(0, 99)), '-%d.%d' % (n, r.randint(0, 9)), '%d.%d%%' % (n, r.randint(0, 9)), '$%d,%03d.50' % (n, r.randint(0, 999)), '%d:%02dam' % (r.randint(1, 12), r.randint(10, 59)),
                  '€%d' % n, '%d%%-%d%%' % (n, r.randint(1, 99)), '%d.%d%%-%d%%' % (n, r.randint(0, 9), r.randint(1, 99)), '%dth' % n, '19%02ds' % n, 'C#', 'F-%d' % n, 'B2B', '%s.%s@%s.co.uk' % (gt.word(r, 2, 5), gt.word(r, 2, 5), gt.word(r, 2, 5)), '24/7', 'a-%s-%d' % (gt.word(r, 2, 4), n)]) \
        if r.random() < .4 else r.choice(['#' + gt.word(r), '@' + gt.word(r), gt.word(r) + '@' + gt.word(r) + '.com', '%d%%' % r.randint(1, 99),
                  '$%d' % r.randint(1, 999), '%d:%02d' % (r.randint(1, 23), r.randint(10, 59)), 'C++', '%d/%d' % (r.randint(1, 9), r.randint(2, 9)),
                  "o'clock", "O'Brien", "d'Or", 'x-ray', 'well-known', 'state-of-the-art', '%d-%d' % (r.randint(1, 9), r.randint(10, 20)),
                  '->', '<-', '-->', '%d+' % r.randint(1, 99), gt.word(r, 2, 5) + '_' + gt.word(r, 2, 5)])
    return d, [d], 'any'


WHOLE = {f.__name__[2:]: f for f in (w_url, w_url_end, w_url_family, w_domain_path, w_acronym, w_decimal, w_thousands, w_title, w_abbreviation, w_abbreviation_number, w_abbreviation_punct,
                                     w_initial, w_comparator, w_smiley, w_n, w_feet, w_section, w_short, w_net, w_amp, w_run, w_dotted, w_misc)}


# --- Units that have to be cut


def s_comma(r):
    w = gt.plain_word(r)
    return w + ',', [w, ','], 'any'


def s_comma_glued(r):
    a, b = gt.plain_word(r), gt.plain_word(r)
    return a + ',' + b, [a, ',', b], 'any'


def s_inner(r):
    a, b = gt.plain_word(r), gt.plain_word(r)
    p = r.choice([';', '|', '\\', '=', '==', '?', '!', '(', ')', '[', ']', '{', '}', '"', '((', '[[', '{{', ';;', '||'])
    return a + p + b, [a, p, b], 'any'


def s_runs(r):
    """A run of one symbol is one token"""
    a, b = gt.plain_word(r), gt.plain_word(r)
    p = r.choice('=!?";|\\(){}[]…') * r.choice([1, 2, 2, 3, 4])
    return r.choice(['%s%s%s', '%s%s%s', '%s %s%s', '%s%s %s', '%s %s %s']) % (a, p, b), [a, p, b], 'any'


def s_numbers(r):
    """Symbols between numbers and words"""
    n, w = str(r.randint(1, 9999)), gt.plain_word(r)
    return r.choice([(n + ',' + w, [n, ',', w], 'any'), (w + ',' + n, [w, ',', n], 'any'), (n + ';' + w, [n, ';', w], 'any'), (w + ';' + n, [w, ';', n], 'any'), (n + ';' + str(len(w)), [n, ';', str(len(w))], 'any'), (w + '!' + n, [w, '!', n], 'any'), (w + '(' + n, [w, '(', n], 'any'), (w + '=' + n, [w, '=', n], 'any'), ('(' + n + ')', ['(', n, ')'], 'any'), (n + '?' + w, [n, '?', w], 'any'), (n + '=' + w, [n, '=', w], 'any'),
                     (n + ', ' + w, [n, ',', w], 'any'), (n + ', ' + n, [n, ',', n], 'any'), (n + ', ' + w + ', ' + n, [n, ',', w, ',', n], 'any'), (n + '>' + w, [n, '>', w], 'any'), (w + '<' + n, [w, '<', n], 'any'), (n + ': ' + w, [n, ':', w], 'any'), (w + ' :' + n, [w, ':', n], 'any')])


def s_clitic_then(r):
    """A short form before punctuation"""
    w, c = gt.word(r, 2, 7), r.choice(["n't", "'re", "'ll", "'ve", "'m", "'d", "'s"])
    if r.random() < .2:
        w, c = w.upper(), c.upper()
    p = r.choice([',', '!', '?', ';', ')', '"', ' :'])
    return w + c + p, [w, c, p.strip()], 'any'


def s_short_quote(r):
    """A quote in front of a word"""
    w = r.choice(['sup', 'specially', 'scuse', 'tis', 'twas', 'em', 'cause', gt.word(r, 3, 6)])
    return "'" + w, ["'", w], 'any'


def s_bracketed(r):
    a = gt.plain_word(r)
    x, y = r.choice(['()', '[]', '{}', '""'])
    return x + a + y, [x, a, y], 'any'


def s_colon(r):
    a, b = gt.plain_word(r), gt.plain_word(r)
    while len(a) < 3:
        a = gt.plain_word(r)
    n = str(r.randint(1, 99))
    return r.choice([(a + ':', [a, ':'], 'any'), (a + ':' + b, [a, ':', b], 'any'), (a + ':' + n, [a, ':', n], 'any'),
                     (n + ':' + b, [n, ':', b], 'any'), (':' + b, [':', b], 'any'), (a.capitalize() + ':' + b.capitalize(), [a.capitalize(), ':', b.capitalize()], 'any'), (a.upper() + ':' + n, [a.upper(), ':', n], 'any'),
                     (n + ':' + b.capitalize(), [n, ':', b.capitalize()], 'any'), (n + ':' + b[0], [n, ':', b[0]], 'any')])


def s_slash(r):
    a, b = gt.plain_word(r), gt.plain_word(r)
    if r.random() < .4:  # one side may be short
        a, b = r.choice([(gt.word(r, 2, 2), gt.word(r, 1, 1)), (gt.word(r, 1, 1), gt.word(r, 2, 2)), (a.capitalize(), b.capitalize()), (a, str(r.randint(1, 99))), (str(r.randint(1, 99)), b), ('b2b', 'b2c'),
                         (str(r.randint(1, 99)) + gt.word(r, 1, 1), gt.word(r, 1, 1)), (gt.word(r, 1, 1), gt.word(r, 1, 1) + str(r.randint(1, 9)))])
    return a + '/' + b, [a, '/', b], 'any'


def s_percent(r):
    n, b = str(r.randint(1, 99)), gt.plain_word(r)
    if r.random() < .3:
        b = r.choice([b.capitalize(), b.upper()])
    return r.choice([(n + '%' + b, [n, '%', b], 'any'), (b + '%', [b, '%'], 'any')])


def s_plus(r):
    a, b, n = gt.word(r, 3, 7), gt.word(r, 3, 7), str(r.randint(1, 99))
    return r.choice([(a + '+' + b, [a, '+', b], 'any'), (n + '+' + b, [n + '+', b], 'any')])


def s_star(r):
    a, b = gt.plain_word(r), gt.plain_word(r)
    if r.random() < .3:
        a, b = a.upper(), b.capitalize()
    return a + '*' * r.randint(1, 3) + b, [a, '*', b], 'any'


def s_angle(r):
    a, b, p = gt.plain_word(r), gt.plain_word(r), r.choice('<>')
    return a + p + b, [a, p, b], 'any'


def s_amp(r):
    a, b = gt.word(r, 3, 7), gt.word(r, 3, 7)
    if r.random() < 0.5:
        a, b = a.capitalize(), b.capitalize()
    return r.choice([a + '&' + b, a + '&' + b, a + '& ' + b, a + ' &' + b, a + ' & ' + b]), [a, '&', b], 'any'


def s_clitic(r):
    w = gt.word(r, 2, 7)
    c = r.choice(["n't", "'re", "'ll", "'ve", "'m", "'d", "'s"])
    if r.random() < 0.15:
        w, c = w.upper(), c.upper()
    if c[0] in "'" and len(w) < 1:
        w = 'we'
    return w + c, [w, c], 'any'


def s_plural_possessive(r):
    w = gt.plain_word(r) + 's'
    return w + "'", [w, "'"], 'any'


def s_single_quoted(r):
    ws = [gt.plain_word(r) for _ in range(r.randint(1, 3))]
    return "'" + ' '.join(ws) + "'", ["'"] + ws + ["'"], 'any'


def s_mid_quote(r):
    a, b = gt.word(r, 3, 6), gt.word(r, 3, 6)
    if r.random() < .3:
        odd = r.choice(['é', 'ñ', 'ü', '7', 'Ж', 'K', 'D'])
        a, b = r.choice([(a[:-1] + odd, b), (a, odd + b[1:]), (a.upper(), b.upper()), (a.capitalize(), b.capitalize())])
    return a + "'" + b, [a, "'", b], 'any'


def s_cannot(r):
    t = r.choice(['cannot', 'Cannot', 'CANNOT'])
    return t, [t[:3], t[3:]], 'any'


def s_bullet(r):
    b, w = r.choice('-*'), gt.plain_word(r)
    w = r.choice([w, w, w.capitalize(), w.upper()])
    return b + w, [b, w], 'any'


def s_end(r):
    w, p = gt.plain_word(r), r.choice(['.', '?', '!'])
    if r.random() < .15:
        # A number that is no plain number does not hold back the ender
        n = r.choice(['%dth', '%ds', '%d' + gt.word(r, 3, 5), '%dmm', '%dD']) % r.randint(1, 2000)
        return w + p + ' ' + n, [w, p, n], 'any'
    return w + p, [w, p], 'cap'


def s_glued_end(r):
    a, b = gt.plain_word(r), gt.capital(r)
    if r.random() < .2:
        return a + ".'" + b, [a, '.', "'", b], 'any'
    return a + '.' + b, [a, '.', b], 'any'


def s_dash(r):
    a, b = gt.plain_word(r), gt.plain_word(r)
    return a + r.choice(['–', '—', '——', '–—']) + b, [a, '-', b], 'any'


def s_fancy(r):
    w = gt.plain_word(r)
    if r.random() < 0.5:
        return '“' + w + '”', ['"', w, '"'], 'any'
    v = gt.word(r, 2, 6)
    q = r.choice('’‘′')
    return r.choice([(v + q + 's', [v, "'s"], 'any'), (v + 'n%st' % q, [v, "n't"], 'any'), (v + q + 'll', [v, "'ll"], 'any'), ('‘' + w + '’', ["'", w, "'"], 'any'), ('″' + w + '″', ['"', w, '"'], 'any')])


SPLIT = {f.__name__[2:]: f for f in (s_comma, s_comma_glued, s_inner, s_runs, s_numbers, s_clitic_then, s_short_quote, s_bracketed, s_colon, s_slash, s_percent, s_plus, s_star, s_angle,
                                     s_amp, s_clitic, s_plural_possessive, s_single_quoted, s_mid_quote, s_cannot, s_bullet,
                                     s_end, s_glued_end, s_dash, s_fancy)}


NOT_FIRST = {'feet', 'n', 'bullet', 'colon'}  # these need a blank in front
NOT_LAST = {'n', 'title', 'abbreviation', 'short', 'misc'}  # what follows decides


def compose(rng, table, names=None, n=None, plain_tail=True):
    """Returns (text, tokens, names of the units used).  Units are separated by plain words."""
    names = names or sorted(table)
    n = n or rng.choice([1, 1, 2, 3, 5, 8, 14])
    parts, tokens, used = [], [], []

    def plain(kind='any'):
        if kind == 'cap' and rng.random() < .5:
            w, t = u_name(rng)
            parts.append(w)
            tokens.extend(t)
            w, t = u_word(rng)
        elif kind == 'cap' or (kind == 'any' and rng.random() < 0.2):
            w, t = u_capital(rng)
        else:
            w, t = u_word(rng)
        parts.append(w)
        tokens.extend(t)

    memory = []
    bare = rng.random() < .25  # the unit stands at the edges of the text
    if not bare:
        plain()
    for k in range(n):
        if memory and rng.random() < 0.2:
            name, unit = rng.choice(memory)
        else:
            name = rng.choice(names)
            unit = table[name](rng)
        if not parts and name in NOT_FIRST:
            plain()
        memory.append((name, unit))
        used.append(name)
        parts.append(unit[0])
        tokens.extend(unit[1])
        if bare and k == n - 1 and name not in NOT_LAST:
            break
        plain(unit[2])
        for _ in range(rng.choice([0, 0, 1, 2])):
            plain()
    sep = ' ' if rng.random() < 0.9 else rng.choice(['  ', ' \u00a0'])
    return sep.join(parts), tokens, used
