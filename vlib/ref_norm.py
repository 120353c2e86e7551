"""Reference rules of normalization, written as tables: spelling, lemmas, past participles."""
CONS = 'bcdfghjklmnpqrstvwxz'
VOW = 'aeiouy'
LOW = 'abcdefghijklmnopqrstuvwxyz'
NOUNS = ('NOUN', 'PROPN', 'PRON', 'SYM', 'NUM')

# Spelling ---------------------------------------------------------------------------------------------------------

_SPELL = (
    # middles, endings, candidates(start, middle, ending), number of characters of the winner kept before the ending
    (('our', 'or'), ('ing', 'ed', 's', ''), lambda s, m: (s + 'or', s + 'our'), None),
    (('ys', 'yz', 'is', 'iz'), ('ations', 'ation', 'ers', 'er', 'ing', 'ed', 'es', 'e'),
     lambda s, m: (s + m[0] + 'ze', s + m[0] + 'se'), -1),
    (('c', 's'), ('ives', 'ive', 'es', 'e'), lambda s, m: (s + 'se', s + 'ce'), -1),
    (('og', 'ogue'), ('s', ''), lambda s, m: (s + 'og', s + 'ogue'), None),
)


def _cut(token, middles, endings):
    """Longest start of at least 3 letters followed by a middle and an ending"""
    for k in range(len(token), 0, -1):
        if any(c not in LOW for c in token[:1].lower() + token[1:k]):
            continue
        for m in middles:
            if token[k:k + len(m)] == m and token[k + len(m):] in endings:
                return (token[:k], m, token[k + len(m):]) if k > 2 else None
    return None


def standard(token, lm):
    if lm.has(token, 5):
        return token
    for middles, endings, cands, keep in _SPELL:
        parts = _cut(token, middles, endings)
        if parts:
            best = lm.best(cands(parts[0], parts[1]))
            if best is not None:
                return (best[:keep] if keep else best) + parts[2]
    parts = _cut(token, ('el', 'ell'), ('ing', 'ers', 'ed', 'er'))
    if parts:
        best = lm.best((parts[0] + 'el' + parts[2], parts[0] + 'ell' + parts[2]))
        if best is not None:
            return best
    for pair in ('ae', 'oe'):
        if len(token) > 4 and pair in token:
            best = lm.best((token.replace(pair, 'e'), token))
            if best is not None:
                return best
    return token


# Lemmas -----------------------------------------------------------------------------------------------------------

SPECIAL = {
    'VERB': {"'m": ('be', None), 'am': ('be', None), "'re": ('be', None), 'are': ('be', None), "'s": ('be', 'THIRD_PERSON'),
             'is': ('be', 'THIRD_PERSON'), 'being': ('be', 'PROGRESSIVE'), 'has': ('have', 'THIRD_PERSON'),
             'doing': ('do', 'PROGRESSIVE'), 'need': ('need', None)},
    'ADJ': {'better': ('good', 'COMPARATIVE'), 'best': ('good', 'SUPERLATIVE')},
    'ADV': {'better': ('well', 'COMPARATIVE'), 'best': ('well', 'SUPERLATIVE'), "'": ("'s", None)},
}
for _tag in NOUNS:
    SPECIAL[_tag] = {"'s": ('we', None), 'acumen': ('acumen', None)}

PREFIXES = ('re', 'un', 'mis', 'dis', 'out', 'co', 'sub', 'grand')
MODALS = ('i', 'you', 'we', 'they', 'may', 'might', 'can', 'could', 'would', 'should')

# (ending, minimal length of what precedes, how, inflection)
# how: 'double' start ends with vowel + doubled consonant, undoubled or not;  'e' start with or without final e;
#      ('cons', endings) start ends with a consonant;  ('any', endings);  ('last', endings) replace the last letter by itself + each
RULES = {
    'ADJ': (
        ('est', 4, 'double', 'SUPERLATIVE'), ('er', 4, 'double', 'COMPARATIVE'), ('iest', 2, ('cons', ('y',)), 'SUPERLATIVE'),
        ('est', 3, ('last', ('', 'e')), 'SUPERLATIVE'), ('ier', 2, ('cons', ('y',)), 'COMPARATIVE'),
        ('er', 3, ('last', ('', 'e')), 'COMPARATIVE')),
    'VERB': (
        ('icking', 2, ('cons', ('ic',)), 'PROGRESSIVE'), ('icked', 2, ('cons', ('ic',)), 'PAST'),
        ('ing', 4, 'double', 'PROGRESSIVE'), ('ing', 3, ('last', ('', 'e')), 'PROGRESSIVE'),
        ('icks', 2, ('cons', ('ic',)), 'THIRD_PERSON'), ('ed', 4, 'double', 'PAST'), ('ied', 2, ('cons', ('y',)), 'PAST'),
        ('ies', 1, ('cons', ('y', 'ie')), 'THIRD_PERSON'), ('ed', 2, ('last', ('', 'e')), 'PAST'),
        ('es', 2, ('last', ('', 'e')), 'THIRD_PERSON'), ('s', 2, ('last', ('',)), 'THIRD_PERSON')),
    'NOUN': (
        ('a', 5, ('any', ('on',)), 'PLURAL'), ('ieves', 1, ('cons', ('ief',)), 'PLURAL'), ('i', 4, ('any', ('us',)), 'PLURAL'),
        ('ies', 2, ('cons', ('y', 'ie')), 'PLURAL'), ('ves', 2, ('any', ('f', 'fe', 've')), 'PLURAL'),
        ('men', 2, ('any', ('man',)), 'PLURAL'), ('es', 2, ('last', ('', 'e', 'is')), 'PLURAL'),
        ('s', 2, ('last', ('',)), 'PLURAL')),
}


def prefix_of(word):
    parts = word.split('-')
    if len(parts) == 2:
        return parts[0] + '-', parts[1]
    for p in PREFIXES:
        if word.startswith(p):
            return p, word[len(p):]
    return None


def _irregular(word, tag, t):
    order = {'NOUN': (('plur', 'PLURAL'),), 'VERB': (('pp', 'PAST'), ('pret', 'PAST')),
             'ADJ': (('comp', 'COMPARATIVE'), ('sup', 'SUPERLATIVE'))}.get(tag, ())
    for name, inflection in order:
        if word in t[name]:
            return t[name][word], inflection
    return None


def _supported(stem, endings, tag, lm):
    cands = [stem + e for e in endings]
    if len(cands) == 1:
        return cands[0] if cands[0] in lm else None
    heads = MODALS if tag == 'VERB' else cands
    best = lm.best(['%s %s' % (h, c) for c in cands for h in heads])
    if best is not None:
        return best.split()[-1]
    return lm.best(cands)


def lemma(word, tag, lm, t):
    """Returns (lemma, name of the inflection or None)"""
    word = word.lower()
    if word in SPECIAL.get(tag, ()):
        return SPECIAL[tag][word]
    hit = _irregular(word, tag, t)
    if hit:
        return hit
    pre = prefix_of(word)
    if pre:
        hit = _irregular(pre[1], tag, t)
        if hit:
            return pre[0] + hit[0], hit[1]
    for ending, least, how, inflection in RULES.get(tag, ()):
        if not word.endswith(ending) or len(word) <= len(ending) or len(word) - len(ending) < least:
            continue
        start = word[:len(word) - len(ending)]
        if how == 'double':
            if not (start[-3] in VOW and start[-2] in CONS and start[-1] == start[-2]):
                continue
            stem, endings = start[:-2], (start[-1], start[-2:])
        elif how[0] == 'cons':
            if start[-1] not in CONS:
                continue
            stem, endings = start, how[1]
        elif how[0] == 'last':
            stem, endings = start[:-1], tuple(start[-1] + e for e in how[1])
        else:
            stem, endings = start, how[1]
        if tag == 'ADJ' and (ending, least) == ('er', 3) and word in t['adjs']:
            continue
        if tag == 'NOUN' and ending == 's' and (word.endswith('ss') or word + 'es' in lm):
            continue
        best = _supported(stem, endings, tag, lm)
        if best is not None:
            return best, inflection
        pre = prefix_of(stem)
        if pre:
            best = _supported(pre[1], endings, tag, lm)
            if best is not None:
                return pre[0] + best, inflection
        return word, None
    return word, None


# Past participles -------------------------------------------------------------------------------------------------


def participle(verb, lm, lemma_pp):
    if verb in lemma_pp:
        return lemma_pp[verb]
    if len(verb) > 2 and verb.endswith('ie') and verb[-3] in CONS:
        return verb + 'd'
    if len(verb) > 1:
        if verb[-1] == 'y' and verb[-2] in CONS:
            return verb[:-1] + 'ied'
        if verb[-1] == 'e' and verb[-2] in CONS:
            return verb + 'd'
        if verb[-2] in VOW and verb[-1] in CONS:
            cands = (verb + 'ed', verb + verb[-1] + 'ed')
            best = lm.best(cands)
            if best is not None:
                return best
    return verb + 'ed'
