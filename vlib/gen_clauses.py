"""Grammar of annotated sentences: builds [(token, tag, dep, parent)] with their meaning-bearing constructions turned on by a profile."""
from vlib import gen_trees as gt

# lemma, third person, past, participle, progressive
VERBS = [v.split() for v in (
    'eat eats ate eaten eating', 'bake bakes baked baked baking', 'like likes liked liked liking', 'take takes took taken taking', 'meet meets met met meeting',
    'carry carries carried carried carrying', 'stop stops stopped stopped stopping', 'panic panics panicked panicked panicking', 'see sees saw seen seeing',
    'write writes wrote written writing', 'play plays played played playing', 'use uses used used using', 'tie ties tied tied tying', 'break breaks broke broken breaking',
    'show shows showed shown showing', 'open opens opened opened opening', 'travel travels travelled travelled travelling', 'fix fixes fixed fixed fixing', 'hop hops hopped hopped hopping',
    'agree agrees agreed agreed agreeing', 'organise organises organised organised organising', 'rewrite rewrites rewrote rewritten rewriting')]
LIGHT = [v.split() for v in ('have has had had having', 'get gets got got getting', 'do does did done doing', 'be is was been being')]
CLAUSAL = [v.split() for v in ('want wants wanted wanted wanting', 'think thinks thought thought thinking', 'hear hears heard heard hearing', 'help helps helped helped helping',
                               'allow allows allowed allowed allowing', 'continue continues continued continued continuing', 'find finds found found finding')]
COPULAS = ['is', 'are', 'was', "'s", 'be', 'seems', 'became', 'stayed', 'being', 'were', 'remain']
NOUNS = [n.split() for n in ('apple apples', 'dog dogs', 'city cities', 'child children', 'wolf wolves', 'woman women', 'box boxes', 'hotel hotels', 'engine engines', 'criterion criteria',
                             'idea ideas', 'boss bosses', 'analysis analyses', 'horse horses', 'colour colours', 'house houses', 'meeting meetings', 'doctor doctors', 'teacher teachers',
                             'window windows', 'people people', 'foot feet', 'catalogue catalogues', 'neighbour neighbours', 'défense défenses', 'maß maße')]
NAMES = ['Laura', 'Tamara', 'Boyan', 'Slat', 'Google', 'Alphabet', 'Harry', 'McCoy', 'Paris', 'Mandela', 'Hard', 'Rock', 'Stadium', 'Brandon', 'Kings', 'Harbour', 'Colour', 'ORGANISATION', 'Straße', 'École', 'ΟΔΟΣ', 'İzmir', 'Paediatrics']
ADJS = ['big', 'red', 'happier', 'tallest', 'strange', 'viral', 'best', 'better', 'larger', 'thinnest', 'nice', 'last', 'safe', 'slavic', 'interesting', 'colorful', 'new', 'old']
PPS = ['broken', 'baked', 'stored', 'written', 'organised', 'met', 'stopped', 'named', 'used', 'allowed', 'taken', 'tied', 'carried', 'related', 'seen']
SUBJ_PRON = ['I', 'you', 'she', 'he', 'we', 'they', 'it', 'everyone', 'something', 'those', 'who', 'what']
OBJ_PRON = ['me', 'you', 'her', 'him', 'us', 'them', 'it', 'somebody', 'this', 'Them', 'HIM']
REFLEXIVE = ['myself', 'yourself', 'yourselves', 'himself', 'herself', 'itself', 'ourself', 'ourselves', 'theirself', 'themselves', 'oneself', 'Itself']
RELATIVE = ['that', 'which', 'who']
PREPS = ['of', 'in', 'with', 'toward', 'at', 'to', 'from', 'By', 'by', 'than']
ADVS = ['quickly', 'here', 'again', 'very', 'later', 'well']
AFTER = ['up', 'off', 'into', 'care of', 'for', 'asleep', 'Out', 'away with', 'down', 'up against', 'out for', 'on along with', 'over']

BASE = dict(depth=2, p_adj=.25, p_cconj=.15, p_neg=.12, p_compound=.12, p_name=.2, p_pron=.25, p_num=.05, p_sym=.05, p_art=.3, p_mark=.12, p_rel=.1, p_pp=.1, p_naming=.1, p_part=.15, p_reflexive=.06,
            p_clause=.2, p_copula=.25, p_iobj=.12, p_exist=.04, p_iprop=.08, p_subj=.85, p_obj=.65, p_vconj=.15, p_long=.12, p_cmp=.08, p_inf=.4, p_odd=.03, p_light=.15, p_adv=.15,
            p_agent=.4, p_propmark=.08, p_flip=.12, p_by=.2, p_caps=.1, p_flat=.35, p_list=.01, p_longname=.03, p_far=.08, p_scramble=.15)


def profile(**kw):
    out = dict(BASE)
    out.update(kw)
    return out


class N(object):

    def __init__(self, word, tag, label):
        self.word, self.tag, self.label = word, tag, label
        self.left, self.right = [], []


def _caps(rng, word):
    return rng.choice([word.capitalize(), word.upper()])


class Grammar(object):

    def __init__(self, rng, prof):
        self.rng, self.p = rng, prof
        self.budget = rng.choice([8, 14, 22, 34])

    def hit(self, name):
        return self.rng.random() < self.p['p_' + name]

    def word(self, word):
        self.budget -= 1
        return _caps(self.rng, word) if self.hit('caps') else word

    def negate(self, node):
        if self.hit('neg'):
            node.left.append(N(self.rng.choice(['not', "n't", 'no', 'never', 'Not']), 'ADV', 'NEG'))
            if self.rng.random() < .1:
                node.left.append(N('never', 'ADV', 'NEG'))

    def conjoin(self, node, make, prob='cconj'):
        """Adds AND/OR children"""
        label = self.rng.choice(['AND', 'AND', 'OR'])
        n = 0
        least = self.rng.choice([5, 6, 8, 10]) if self.rng.random() < self.p['p_list'] and self.budget > 4 else 0  # a long enumeration
        while n < least or self.hit(prob) and n < 3 and self.budget > 0:
            n += 1
            node.right.append(self.rng.choice([None, ',', 'and', 'or', 'but']))
            node.right.append(make(label if self.rng.random() < .85 else self.rng.choice(['AND', 'OR'])))
        return node

    # Nouns
    def noun(self, label, obj=False, depth=None, simple=False):
        rng, p = self.rng, self.p
        depth = p['depth'] if depth is None else depth
        k = rng.random()
        if k < p['p_pron']:
            node = N(self.word(rng.choice(OBJ_PRON if obj else SUBJ_PRON)), 'PRON', label)
            self.negate(node)
            if rng.random() < .05 and self.budget > 0:
                node.left.append(self.compound(0))  # "team them"
        elif k < p['p_pron'] + p['p_name']:
            node = N(self.word(rng.choice(NAMES)), 'PROPN', label)
            if self.hit('flat'):
                cur = node
                for _ in range(rng.randint(1, 3) if not self.hit('longname') else rng.randint(6, 9)):
                    nxt = N(self.word(rng.choice(NAMES + ['of', 'the'])), rng.choice(['PROPN', 'PROPN', 'PROPN', 'NOUN']), 'FLAT')
                    cur.right.append(nxt)
                    cur = nxt
                return self._tail(node, label, depth, simple, flat=True)
            self.negate(node)
        elif k < p['p_pron'] + p['p_name'] + p['p_num']:
            node = N(self.word(rng.choice(['34', '2016', 'three', '1,000'])), 'NUM', label)
        elif k < p['p_pron'] + p['p_name'] + p['p_num'] + p['p_sym']:
            node = N(self.word(rng.choice(['mysite.com', '#OnSale', ':)', '@joe'])), 'SYM', label)
        else:
            node = N(self.word(rng.choice(rng.choice(NOUNS))), 'NOUN', label)
            if self.hit('art'):
                node.left.append(N(rng.choice(['the', 'a', 'her', 'these']), 'DET', 'ART'))
            self.negate(node)
            while self.hit('adj') and self.budget > 0:
                node.left.append(self.adj('CPL', owner=node, depth=depth))
            while self.hit('compound') and self.budget > 0:
                node.left.append(self.compound(rng.choice([0, 0, 1, 2])))
        return self._tail(node, label, depth, simple)

    def compound(self, depth):
        rng = self.rng
        tag = rng.choice(['NOUN', 'NOUN', 'NOUN', 'PROPN', 'NUM', 'ADJ'])
        node = N(self.word(rng.choice(rng.choice(NOUNS)) if tag in ('NOUN', 'ADJ') else rng.choice(NAMES) if tag == 'PROPN' else '2nd'), tag, 'CPL')
        if rng.random() < .12:
            node.right.append(N("'s", 'PREP', rng.choice(['MARK', 'MARK', 'MARK', 'IMARK', 'CMARK'])))
        if depth and self.budget > 0:
            side = node.left if rng.random() < .85 else node.right
            side.append(self.compound(depth - 1))
        if rng.random() < .1:
            node.left.append(self.adj('CPL', depth=0))
        self.negate(node) if rng.random() < .2 else None
        return node

    def _tail(self, node, label, depth, simple, flat=False):
        rng = self.rng
        if not simple and depth > 0 and self.budget > 0:
            if self.hit('mark'):
                other = self.noun('CPL', obj=True, depth=depth - 1)
                other.left.insert(0, N(rng.choice(PREPS), 'PREP', rng.choice(['MARK', 'MARK', 'MARK', 'IMARK'])))
                node.right.append(other)
            if self.hit('pp'):
                node.right.append(self.pp('CPL', depth - 1))
            if self.hit('naming'):
                pp = N(self.word(rng.choice(['named', 'called', 'known', 'baked', 'nice'])), 'ADJ', 'CPL')
                self.negate(pp)
                self.particles(pp)
                pp.right.append(self.prop('PROP', depth - 1))
                if rng.random() < .5:
                    self.agents(pp, depth - 1)
                node.right.append(pp)
            if self.hit('rel'):
                node.right.append(self.relative(depth - 1))
        if not simple or flat:
            make = lambda lab: self.noun(lab, depth=max(0, depth - 1), simple=True)
            self.conjoin(node, make)
        return node

    # Adjectives
    def adj(self, label, owner=None, depth=1):
        rng = self.rng
        if self.hit('flip'):
            word, tag = rng.choice([('orange', 'ADJ'), ('red', 'NOUN'), ('big', 'NOUN'), ('dog', 'ADJ'), ('nice', 'PROPN'), ('house', 'ADJ'), ('apple', 'ADJ'), ('new', 'NUM')])
            node = N(self.word(word), tag, label)
            if rng.random() < .15:
                node.left.append(rng.choice([N('the', 'DET', 'ART'), N('not', 'ADV', 'NEG'), N('quite', 'ADV', 'CPL'), N('had', 'MAT', 'AUX')]))
            return node
        if rng.random() < .25:
            node = N(self.word(rng.choice(PPS)), 'ADJ', label)
        else:
            node = N(self.word(rng.choice(ADJS)), 'ADJ', label)
        if self.hit('adv'):
            node.left.append(N(rng.choice(ADVS), 'ADV', 'CPL'))
        self.negate(node)
        if self.hit('cmp') and depth > 0:
            other = self.noun('CPL', obj=True, depth=0)
            other.left.insert(0, N('than', 'CONJ', 'CMARK'))
            node.right.append(other)
        self.conjoin(node, lambda lab: N(self.word(rng.choice(ADJS + PPS)), 'ADJ', lab))
        return node

    def agents(self, node, depth):
        rng = self.rng
        if self.hit('agent') and self.budget > 0:
            for _ in range(rng.choice([1, 1, 1, 2])):
                agent = self.noun('CPL', obj=True, depth=max(0, depth), simple=depth <= 0)
                agent.left.insert(0, N(rng.choice(['by', 'by', 'by', 'By', 'BY', 'with', 'in']), 'PREP', rng.choice(['MARK'] * 9 + ['IMARK'])))
                if rng.random() < .15:
                    node.left.insert(0, agent)  # "the by Laura broken vase"
                else:
                    node.right.append(agent)

    def pp(self, label, depth):
        """Participle with particles and agents"""
        rng = self.rng
        node = N(self.word(rng.choice(PPS)), rng.choice(['ADJ'] * 9 + ['VERB']), label)
        self.negate(node)
        self.particles(node)
        self.agents(node, depth)
        self.conjoin(node, lambda lab: N(self.word(rng.choice(PPS)), 'ADJ', lab))
        return node

    def prop(self, label, depth):
        rng = self.rng
        k = rng.random()
        if k < .35:
            node = self.adj(label, depth=depth)
        elif k < .6:
            node = self.pp(label, depth)
        elif k < .92:
            node = self.noun(label, obj=True, depth=max(0, depth), simple=rng.random() < .4)
        else:
            node = N(self.word(rng.choice(ADVS)), 'ADV', label)
        if self.hit('propmark'):
            node.left.insert(0, N(rng.choice(['at', 'in', 'as']), 'PREP', rng.choice(['MARK', 'IMARK', 'CMARK'])))
        return node

    def particles(self, node):
        if self.hit('part'):
            words = self.rng.choice(AFTER).split()
            for w in words * self.rng.choice([1] * 12 + [2]):  # on and on
                node.right.append(N(w, 'FRAG', 'PART'))

    # Clauses
    def relative(self, depth):
        rng = self.rng
        verb = self.verb('CPL', depth, subj=False, obj=False, kind=rng.choice(['plain', 'plain', 'copula']))
        k = rng.random()
        if rng.random() < .15:
            verb.left.insert(0, N(rng.choice(['because', 'as']), 'CONJ', rng.choice(['MARK', 'IMARK', 'CMARK'])))
        pron = N(self.word(rng.choice(RELATIVE if rng.random() < .85 else ['what', 'whom', 'it'])), 'PRON' if rng.random() < .93 else 'CONJ', 'SUBJ')
        if k < .4:
            verb.left.insert(0, pron)
            if rng.random() < .7 and verb.kind != 'copula':
                verb.right.append(self.noun('OBJ', obj=True, depth=max(0, depth)))
        elif k < .65:
            pron.label = 'OBJ'
            verb.left.insert(0, self.noun('SUBJ', depth=0, simple=rng.random() < .6))
            verb.left.insert(0, pron)
        elif k < .9:
            verb.left.insert(0, self.noun('SUBJ', depth=0, simple=rng.random() < .6))
        else:
            verb.right.append(self.noun('OBJ', obj=True, depth=0))
        if rng.random() < .15:
            (verb.right if rng.random() < .8 else verb.left).append(self.noun('IOBJ', obj=True, depth=0, simple=True))
        return verb

    def verb(self, label, depth, subj=True, obj=True, kind=None, conj=True):
        rng = self.rng
        if kind is None:
            kind = 'copula' if self.hit('copula') else 'clausal' if depth > 0 and self.hit('clause') else 'plain'
        if kind == 'copula':
            node = N(self.word(rng.choice(COPULAS)), 'VERB', label)
        else:
            table = LIGHT if self.hit('light') else CLAUSAL if kind == 'clausal' else VERBS
            node = N(self.word(rng.choice(rng.choice(table))), 'VERB', label)
        node.kind = kind
        if rng.random() < .2:
            node.left.append(N(rng.choice(['will', 'could', 'has', 'was']), 'MAT', rng.choice(['AUX', 'MODAL'])))
        self.negate(node)
        far = self.hit('far')  # particles after the objects
        if not far:
            self.particles(node)
        if self.hit('adv'):
            node.right.append(N(rng.choice(ADVS), 'ADV', 'CPL'))
        if kind == 'copula':
            node.right.append(self.prop('PROP', depth - 1))
        elif kind == 'clausal' and obj:
            inner = self.verb('OBJ', depth - 1, subj=False, obj=True)
            k = rng.random()
            if rng.random() < self.p['p_inf']:
                inner.left.insert(len(inner.left) if rng.random() < .8 else rng.randint(0, len(inner.left)), N(rng.choice(['to', 'to', 'To']), 'FRAG', 'PART'))
                if rng.random() < .2:  # to boldly go
                    inner.left.append(N(rng.choice(ADVS), 'ADV', rng.choice(['CPL', 'CPL', 'NODEP'])))
            if k < .5:
                word = self.noun('SUBJ', obj=rng.random() < .5, depth=max(0, depth - 1), simple=rng.random() < .5)
                inner.left.insert(0, word)
            elif k < .5 + self.p['p_reflexive'] * 2:
                inner.left.insert(0, N(self.word(rng.choice(REFLEXIVE)), 'PRON', 'SUBJ'))
            node.right.append(inner)
            if rng.random() < .1:
                node.right.append(self.noun('OBJ', obj=True, depth=0))
            if rng.random() < .15:
                inner.right.append('and')
                inner.right.append(self.verb(rng.choice(['AND', 'OR']), 0, subj=False, obj=rng.random() < .5, kind='plain', conj=False))
        elif obj and self.hit('obj'):
            if self.hit('reflexive'):
                node.right.append(N(self.word(rng.choice(REFLEXIVE)), 'PRON', 'OBJ'))
            else:
                node.right.append(self.noun('OBJ', obj=True, depth=depth - 1))
        if obj and self.hit('iobj'):
            side = node.right if rng.random() < .7 else node.left
            side.append(self.noun('IOBJ', obj=True, depth=0))
        if self.hit('iprop'):
            node.right.append(self.prop('IPROP', 0))
        if self.hit('exist'):
            node.right.append(self.noun('EXIST', depth=0))
        if far:
            self.particles(node)
        if subj and self.hit('subj'):
            if rng.random() < .93:
                node.left.insert(0, self.noun('SUBJ', depth=depth - 1))
            else:
                node.right.append(self.noun('SUBJ', depth=depth - 1, simple=True))
        if depth > 0 and self.hit('long') and self.budget > 0:
            other = self.verb('CPL', depth - 1, subj=rng.random() < .4, conj=False)
            other.left.insert(0, N(rng.choice(['but', 'because', 'to']), 'CONJ', rng.choice(['MARK', 'MARK', 'IMARK', 'CMARK'])))
            node.right.append(',')
            node.right.append(other)
        if conj and self.budget > 0:
            def make(lab):
                if rng.random() < .5:
                    return N(self.word(rng.choice(rng.choice(VERBS))), 'VERB', lab)
                return self.verb(lab, 0, subj=rng.random() < .3, conj=False)
            self.conjoin(node, make, 'vconj')
        return node

    def sentence(self):
        rng = self.rng
        k = rng.random()
        if k < .88:
            root = self.verb('ROOT', self.p['depth'])
        elif k < .97:
            root = self.noun('ROOT', depth=self.p['depth'])
        else:
            root = self.adj('ROOT')
        if self.hit('scramble'):
            scramble(rng, root)
        return root


def scramble(rng, node):
    """Puts dependents on the other side of their head; names and markers of coordination stay where they are"""
    if not isinstance(node, N):
        return
    for kid in node.left + node.right:
        scramble(rng, kid)
    for here, there in ((node.left, node.right), (node.right, node.left)):
        for kid in list(here):
            if isinstance(kid, N) and kid.label not in ('FLAT', 'ROOT') and rng.random() < .15:
                here.remove(kid)
                there.insert(rng.choice([0, len(there)]), kid)


def linear(root):
    """[[token, tag, dep, parent]]"""
    out = []

    def walk(node):
        if node is None:
            return None
        if isinstance(node, str):
            out.append([node, 'PUNCT' if node == ',' else 'CONJ', 'NODEP', None])
            return None
        kids = [walk(k) for k in node.left]
        me = len(out)
        out.append([node.word, node.tag, node.label, None])
        kids += [walk(k) for k in node.right]
        for k in kids:
            if k is not None:
                out[k][3] = me
        return me

    walk(root)
    for r in out:
        if r[3] is None:
            r[3] = -1
    return out


def mutate(rng, sample, n):
    """Odd labels and tags, in place"""
    inside = [i for i, r in enumerate(sample) if r[2] not in ('ROOT', 'NODEP')]
    for _ in range(n):
        if not inside:
            break
        i = rng.choice(inside)
        k = rng.random()
        if k < .45:
            sample[i][1] = rng.choice(gt.TAGS)
        elif k < .85:
            sample[i][2] = rng.choice([d for d in gt.IN_TREE if d != 'FLAT'])
        else:
            sample[i][0] = rng.choice(RELATIVE + REFLEXIVE + ['by', 'to', 'be', 'have', 'me'])


def descends(sample, i, top):
    while i != -1:
        if i == top:
            return True
        i = sample[i][3]
    return False


def rewire(rng, sample, n):
    """Moves subtrees anywhere (projective or not), in place; flat names are left alone"""
    flat = {i for i, r in enumerate(sample) if r[2] == 'FLAT'} | {r[3] for r in sample if r[2] == 'FLAT'}
    inside = [i for i, r in enumerate(sample) if r[2] not in ('ROOT', 'NODEP')]
    for _ in range(n):
        cands = [i for i in inside if sample[i][2] != 'FLAT']
        if not cands:
            return
        i = rng.choice(cands)
        tops = [j for j, r in enumerate(sample) if r[2] != 'NODEP' and j not in flat and not descends(sample, j, i)]
        if tops:
            sample[i][3] = rng.choice(tops)


def projective(sample):
    arcs = [tuple(sorted((i, r[3]))) for i, r in enumerate(sample) if r[3] >= 0]
    for i, (a, b) in enumerate(arcs):
        for c, d in arcs[:i]:
            if a < c < b < d or c < a < d < b:
                return False
    inside = [i for i, r in enumerate(sample) if r[2] != 'NODEP']
    root = [i for i in inside if sample[i][2] == 'ROOT'][0]
    return not any(a < root < b for a, b in arcs)


def sentence(rng, prof=None, mutations=0, rewirings=0):
    prof = prof or BASE
    while True:
        s = linear(Grammar(rng, prof).sentence())
        if len(s) <= 48:
            break
    if mutations:
        mutate(rng, s, mutations)
    if rewirings:
        rewire(rng, s, rewirings)
    if rng.random() < .7:
        s.append(['.', 'PUNCT', 'NODEP', -1])
    return s
