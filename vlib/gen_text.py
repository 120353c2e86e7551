"""Hostile text: fragments of every class the tokenizer distinguishes, joined with every kind of separator."""
import re

from vlib import mine

LOWER = 'abcdefghijklmnopqrstuvwxyz'
WORDS = ('the of cat dogs house running quickly tomorrow weather river garden beautiful under between music table '
         'window paper street summer winter people children great small orange yellow system number question answer '
         'cannot gonna well-known state-of-the-art x-ray co-op naïve café über straße').split()
CAPS = 'The Paris London Alice Bob Mary Johnson Smith Monday October Dublin Peter Anna NASA USA UK EU IBM I A'.split()
ABBR = 'm mr mrs ms sr dr prof rev gov sen rep lt sgt ave st ed feat'.split()

_RESERVED_TOK = re.compile(r'_(?:R?NS[A-Z]+|PROTECTED_?\d*)_')
_RESERVED_SENT = re.compile(r'¶|༺[0-9]+༻|⦅[0-9]+⦆')


def word(rng, lo=2, hi=9):
    n = rng.randint(lo, hi)
    if hi - lo > 2 and rng.random() < .002:
        n = rng.choice([20, 45, 110, 300])
    return ''.join(rng.choice(LOWER) for _ in range(n))


def plain_word(rng):
    """A word no rule of the tokenizer is concerned with"""
    while True:
        w = rng.choice(WORDS[:28]) if rng.random() < 0.5 else word(rng, 3, 9)
        if w not in ABBR and w != 'cannot':
            return w


def capital(rng):
    w = plain_word(rng)
    while len(w) < 3 or not w[0].isascii():
        w = plain_word(rng)
    return w[0].upper() + w[1:]


def url(rng, path=None):
    host = '.'.join(word(rng, 2, 7) for _ in range(rng.randint(1, 2))) + '.' + rng.choice(
        ['com', 'org', 'co.uk', 'net', 'io', 'fr', 'gov', 'edu.au'])
    head = rng.choice(['http://', 'https://', 'www.', 'HTTP://', 'Www.', 'https://www.'])
    if path is None:
        path = rng.random() < 0.6
    tail = ''
    if path:
        tail = '/' + '/'.join(rng.choice([word(rng), str(rng.randint(0, 9999)), word(rng) + '.html', 'a,b', 'x(1)',
                                          'A-B_c', '?q=' + word(rng) + '&p=%20', "it's", '~me', 'a;b', 'n:m', '#top'])
                              for _ in range(rng.randint(1, 3)))
    return head + host + tail


def number(rng):
    return rng.choice([
        str(rng.randint(0, 99999)), '%d.%d' % (rng.randint(0, 999), rng.randint(0, 99)),
        '{:,}'.format(rng.randint(1000, 9999999)), '%d,%03d.%02d' % (rng.randint(1, 99), rng.randint(0, 999), rng.randint(0, 99)),
        '%d:%02d' % (rng.randint(0, 23), rng.randint(0, 59)), '%d/%d' % (rng.randint(1, 9), rng.randint(2, 9)),
        '%d%%' % rng.randint(0, 100), '$%d' % rng.randint(1, 999), '%dth' % rng.randint(4, 20), '%d.' % rng.randint(0, 99),
        '-%d' % rng.randint(1, 99), '%d-%d' % (rng.randint(1, 9), rng.randint(10, 19)), '%d+' % rng.randint(1, 99)])


_FRAGS = [
    lambda r: r.choice(WORDS), lambda r: r.choice(WORDS), lambda r: r.choice(CAPS), lambda r: word(r, 1, 12),
    lambda r: number(r),
    lambda r: url(r),
    lambda r: word(r) + '.com/' + word(r),
    lambda r: r.choice(['.', '?', '!', ',', ';', ':', '...', '..', '?!', '!!', '…', '-', '–', '—', '––', '|', '\\', '/', '&',
                        '%', '*', '**', '+', '=', '==', '<', '>', '->', '<-', '>=', '<=', '=>', '=<', '> =', '= <', '#', '@',
                        '$', '^', '~', '_', '__', '`', '•', '°', '©']),
    lambda r: r.choice(['"', "'", '“', '”', '‘', '’', '′', '″', '(', ')', '[', ']', '{', '}', '((', '))', '«', '»', '."', '?"',
                        '.")', ".'", '".', '")', '."1', '."-', '.""']),
    lambda r: r.choice([':)', ':-)', ';)', ';-(', ':(', ":'(", ':D', '<3']),
    lambda r: r.choice([" 'n' ", " 'n ", " n' ", " 'N' ", "'n'", "o'clock", "O'Brien", "dogs'", "don't", "can't", "I'm", "he's",
                        "we'll", "they've", "you're", "she'd", "'s", "'tis", "'sup", "rock'n'roll", "DON'T", "it's."]),
    lambda r: r.choice(["6'2\"", "6'", '5"', "5'11", "1990's", "10,5'", '3.5"', "6''", "2'3'4\""]),
    lambda r: r.choice(ABBR).capitalize() + '.' if r.random() < 0.6 else r.choice(ABBR) + '.',
    lambda r: r.choice(['U.S.', 'U.S.A.', 'e.g.', 'i.e.', 'p.m.', 'a.m', 'Ph.D.', 'J.', 'J.K.', '.NET', 'node.js', 'v1.2.3', '1.2.3.',
                        'etc.', 'No.', 'end.Start', 'a.b', 'x.y.z', 'Inc.', '1.a.', 'A.B', 'we.Go', "end.'Tis"]),
    lambda r: r.choice(['R&D', 'A&W', 'AT&T', 'A & W', 'A B & C', 'A & B C', 'Johnson&Johnson', 'a&b', '&amp;', 'Q&', '&A']),
    lambda r: r.choice(['foo*bar', 'foo**bar', 'C++', 'foo+bar', '50+years', '50%off', 'and/or', 'w/o', 'km/h', '2:Engage',
                        'Note:this', 'note:12', '12:30', 'a:b', '-item', '*item', 'x=y', 'a>b', 'a<b', 'f(x)', 'a|b', 'a\\b']),
    lambda r: '#' + word(r), lambda r: '@' + word(r), lambda r: word(r) + '@' + word(r) + '.com',
    lambda r: r.choice(['é', 'ß', '日本語', 'Ωmega', '🙂', '👩‍👩‍👧', 'e\u0301', '\u200b', 'İ', 'ſ', 'K', 'ǆ', 'ﬁ', '٣', '½', '²', '\ufeff',
                        '༺', '༻', '⦅', '⦆', '⦅hello⦆', 'a༺b', '༺x༻', '†', '‡', 'ʃʃʃ', '\x00', '\ud83d'[:0]]),
    lambda r: r.choice(mine.strings() or ['x']), lambda r: r.choice(mine.strings() or ['x']),
    lambda r: mine.regex_sample(r), lambda r: mine.regex_sample(r),
]

_SEPS = [' '] * 14 + [''] * 7 + ['  ', ' \u00a0', '\u00a0', '\u2009', '\x1f', '\x85']
_BREAKS = ['\n', '\n\n', '\t', '\r\n', ' \n ', '\r', '\x0b', '\x0c', '\u2028']


def scrub(text, sentencizer=True):
    """Removes the marker words reserved by the implementation (outside the domain of the properties)"""
    while True:
        new = _RESERVED_TOK.sub('', text)
        if sentencizer:
            new = _RESERVED_SENT.sub('', new)
        if new == text:
            return text
        text = new


def hostile(rng, breaks=True, max_frags=None):
    n = rng.choice([1, 2, 3, 5, 8, 13, 25]) if max_frags is None else rng.randint(1, max_frags)
    pool = rng.sample(_FRAGS, rng.randint(2, 6)) if rng.random() < 0.5 else _FRAGS
    seps = rng.choice([_SEPS, _SEPS, [' '], ['', ' ']])
    made, out = [], []
    for i in range(n):
        frag = rng.choice(made) if made and rng.random() < 0.12 else rng.choice(pool)(rng)
        made.append(frag)
        out.append(frag)
        out.append(rng.choice(_BREAKS) if breaks and rng.random() < 0.06 else rng.choice(seps))
    text = ''.join(out)
    if rng.random() < 0.1:
        text = '"' + text + '"'
    if rng.random() < 0.1:
        text = '(' + text + ')'
    if rng.random() < 0.05:
        k = rng.randint(0, len(text))
        text = text[:k] + text[k:][::-1]
    return scrub(text)
