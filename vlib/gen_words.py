"""Words, inflected every way the rules know, and language models supporting some of their candidates."""
from vlib import lmfiles, ref_norm as rn

_SYL_C = ['b', 'c', 'd', 'f', 'g', 'l', 'm', 'n', 'p', 'r', 's', 't', 'v', 'z', 'x', 'k', 'h', 'w', 'j', 'q', 'st', 'tr', 'pl', 'ch', 'sh', 'br']
_SYL_V = ['a', 'e', 'i', 'o', 'u', 'y', 'ee', 'oo', 'ie', 'ae', 'oe', 'ea', 'ui']
_REAL = ('bark bake free dye singe format roll picnic panic party lie play try carry die agree stop travel label cancel fat tall '
         'happy large round fine big thin nice fox axe analysis gamer thief wife wolf woman berry talkie nucleus criterion focus '
         'house boss bus box leaf knife basis child hotel color honor realize analyze defense catalog model see hoe tie be have '
         'get do need hate love like run sit hop hope plan plane use cure car care pass fuss kiss echo potato city toy boy').split()
_CACHE = {}
TAGS = ['NOUN', 'VERB', 'ADJ', 'ADV', 'PRON', 'PROPN', 'NUM', 'DET', 'SYM', 'PREP', 'MAT', 'CONJ', 'EXPR', 'FRAG', 'PUNCT', 'THERE']


def stem(rng):
    k = rng.random()
    if k < .45:
        return rng.choice(_REAL)
    if k < .55:
        if 'uni' not in _CACHE:
            _CACHE['uni'] = [w for w in lmfiles.real_unigrams() if 2 < len(w) < 11][:12000]
        return rng.choice(_CACHE['uni'])
    out = ''
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        out += rng.choice(_SYL_C) + rng.choice(_SYL_V)
    if rng.random() < .6:
        out += rng.choice(_SYL_C)
    return out


def affix(rng, word):
    k = rng.random()
    if k < .12:
        return rng.choice(rn.PREFIXES) + word
    if k < .2:
        return rng.choice(['re', 'self', 'x', 'over', 'co', 'un', 'counter', 'internationally', 'multipurpose']) + '-' + word
    if k < .22:
        return 'a-b-' + word
    return word


_ENDS = sorted({(e, tag) for tag, rules in rn.RULES.items() for e, _, _, _ in rules})


def inflected(rng, tables):
    """Returns (word, tag)"""
    k = rng.random()
    if k < .06:
        tag = rng.choice(['VERB', 'ADJ', 'ADV', 'NOUN', 'PROPN', 'PRON', 'NUM', 'SYM'])
        if rng.random() < .2:
            return rng.choice(['A', 'I', 'X', 'É', 'S', 'Ed', 'AS', "'S", "'RE", 'IS', 'Being', 'BEST', 'Better', 'ACUMEN', 'NEED', 'HAS']), rng.choice(TAGS)
        pool = [w for t in rn.SPECIAL.values() for w in t] + ["men", "'s", 'ss', 'as', 'es', 'ed', 'a', 'i', 's', 'ing', 'bed', 'red']
        return affix(rng, rng.choice(pool)) if rng.random() < .2 else rng.choice(pool), tag
    if k < .22:
        name = rng.choice(['pret', 'pp', 'plur', 'comp', 'sup'])
        if tables[name]:
            tag = {'pret': 'VERB', 'pp': 'VERB', 'plur': 'NOUN', 'comp': 'ADJ', 'sup': 'ADJ'}[name]
            if rng.random() < .15:
                tag = rng.choice(['VERB', 'NOUN', 'ADJ', 'ADV', 'PROPN'])
            return affix(rng, rng.choice(sorted(tables[name]))), tag
    if k < .25 and tables['adjs']:
        return rng.choice(sorted(tables['adjs'])), 'ADJ'
    base = affix(rng, stem(rng))
    ending, tag = rng.choice(_ENDS)
    if rng.random() < .1:
        return base, rng.choice(TAGS)
    m = rng.random()
    if m < .2 and base[-1] in rn.CONS:
        base += base[-1]
    elif m < .35 and base[-1] in 'ey':
        base = base[:-1]
    elif m < .4:
        base = base[:max(1, len(base) - rng.randint(1, 4))]
    if rng.random() < .1:
        tag = rng.choice(TAGS)
    word = base + ending
    if rng.random() < .07:
        word = word.capitalize() if rng.random() < .6 else word.upper()
    if rng.random() < .015:
        word = '-' + word if rng.random() < .5 else word + '-'
    return word, tag


def universe(word, tag):
    """Every candidate some rule could propose for the word"""
    word = word.lower()
    out = {word, word + 'es'}
    for rules in ([rn.RULES[tag]] if tag in rn.RULES else rn.RULES.values()):
        for ending, least, how, _ in rules:
            if word.endswith(ending) and len(word) > len(ending):
                start = word[:-len(ending)]
                starts = {start}
                pre = rn.prefix_of(start)
                if pre:
                    starts.add(pre[1])
                for s in starts:
                    if not s:
                        continue
                    out |= {s, s + 'e', s + 'y', s + 'ie', s + 'ic', s + 'is', s[:-1]}
                    if isinstance(how, tuple):
                        out |= {s + e for e in how[1]}
    return {w for w in out if w and ' ' not in w}


def language_model(rng, queries):
    """Returns [unigrams, bigrams]: supports a random part of the candidates of the queries"""
    uni, bi = set(), set()
    p_uni = rng.choice([.15, .4, .7, .95])
    p_bi = rng.choice([0., .1, .3, .6])
    for word, tag in queries:
        cands = sorted(universe(word, tag))
        for c in cands:
            if rng.random() < p_uni:
                uni.add(c)
            if rng.random() < p_bi:
                bi.add('%s %s' % (rng.choice(rn.MODALS), c))
            if rng.random() < .1:
                bi.add('%s %s' % (rng.choice(['he', 'the', 'to', 'it', 'a', 'she', 'must']), c))
            if rng.random() < .02:
                bi.add('%s %s' % (rng.choice(cands), c))
    uni |= {w for w in ('the', 'of', 'house') if rng.random() < .5}
    return [lmfiles.distinct_probas(rng, sorted(uni)), lmfiles.distinct_probas(rng, sorted(bi))]


def small_tables(rng):
    """Synthetic irregular tables"""
    def pairs(ending, n):
        return {stem(rng) + rng.choice(ending): stem(rng) for _ in range(n)}
    pp = pairs(['en', 'ed', 't', 'n', ''], rng.randint(0, 8))
    return {'pret': pairs(['ed', 't', 'ew', ''], rng.randint(0, 8)), 'pp': pp, 'plur': pairs(['s', 'en', 'i', 'es'], rng.randint(0, 8)),
            'comp': pairs(['er', 'r'], rng.randint(0, 4)), 'sup': pairs(['est', 'st'], rng.randint(0, 4)),
            'adjs': {stem(rng) + rng.choice(['er', '']) for _ in range(rng.randint(0, 8))}, 'nouns': set(),
            'lemma_pp': {v: k for k, v in pp.items()}}
