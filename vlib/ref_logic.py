"""Reference extraction of semantic tuples from an annotated sentence, written over token positions and plain tables.

Input: tokens, tag names, arcs [(label, parent, child)] in order of registration, root.  Output: list of T (tuples labelled by the rule they
come from).  Switches turn single rules off, so that a check can tell which tuples a rule is responsible for.
"""
import collections

from vlib import ref_norm as rn

NOUNS = frozenset(('NOUN', 'PROPN', 'PRON', 'SYM', 'NUM'))
MARKS = ('MARK', 'CMARK', 'IMARK')
FUNCTIONAL = frozenset(('ART', 'AUX', 'CMARK', 'NEG', 'INTJ', 'MARK', 'IMARK', 'PART', 'MODAL'))
CODE = {'PROPN': 'P', 'PRON': 'O', 'NUM': 'U', 'SYM': 'S'}
TO_SUBJECT = {'me': 'i', 'you': 'you', 'her': 'she', 'him': 'he', 'us': 'we', 'them': 'they'}
REFLEXIVE = frozenset(('myself', 'yourself', 'yourselves', 'himself', 'herself', 'itself', 'ourself', 'ourselves', 'theirself', 'themselves', 'oneself'))
RELATIVE = frozenset(('that', 'which', 'who'))
NO_PASSIVE = ('have', 'get')
NO_INTRANSITIVE = ('have', 'get', 'be', 'do')

T = collections.namedtuple('T', 'family words codes negative parts')


class W(object):
    """A word group: one node"""

    def __init__(self, pos, text, tag):
        self.pos, self.text, self.tag = pos, text, tag
        self.after, self.inf = [], False
        self.kids, self.up = [], None  # [(label, W)], (label, W)
        self.neg = False
        self.active = None
        self.canon = self.lemma = self.std = text.lower()
        self.past, self.chunk = False, None
        for name in 'subjs objs exists props iprops iobjs adjs triples copulas pps agents'.split():
            setattr(self, name, [])
        self.group = []

    def via(self, *labels):
        return [k for label, k in self.kids if label in labels]

    def first(self, label):
        found = self.via(label)
        return found[0] if found else None

    def is_noun(self):
        return self.tag in NOUNS

    def all(self):
        return [self] + self.group

    def noun_code(self):
        return CODE.get(self.tag, 'N')

    def adj_code(self):
        return 'L' if self.active else 'A'

    def prop_code(self):
        return self.adj_code() if self.tag == 'ADJ' else self.noun_code()

    def intransitive_only(self):
        return bool(self.props or self.iprops or self.exists)


def groups(tokens, tags, arcs, root):
    """{position: W} of all nodes, list of the meaningful ones"""
    kids, up = collections.defaultdict(list), {}
    for label, p, c in arcs:
        kids[p].append((label, c))
        up[c] = (label, p)
    if not arcs:
        only = W(root, tokens[root], tags[root])
        return [only]
    inside = set(up) | set(kids)
    nodes, gone = {}, set()
    for i in range(len(tokens)):
        if i not in kids and i in up and up[i][0] == 'FLAT':
            chain = [i]
            while chain[0] in up and up[chain[0]][0] == 'FLAT':
                chain.insert(0, up[chain[0]][1])
            gone.update(chain)
            nodes[chain[0]] = W(i, ' '.join(tokens[k] for k in chain), tags[i])
    for i in range(len(tokens)):
        parts = sorted(c for label, c in kids[i] if label == 'PART')
        if parts:
            gone.update(parts)
            node = nodes[i] = W(i, tokens[i], tags[i])
            node.after = [tokens[p].lower() for p in parts if p > i]
            node.inf = any(p < i and tokens[p].lower() == 'to' for p in parts)
    for i in sorted(inside):
        if i not in nodes and i not in gone:
            nodes[i] = W(i, tokens[i], tags[i])
    for i in sorted(nodes):
        for label, c in kids[i]:
            if c in nodes:
                nodes[i].kids.append((label, nodes[c]))
                nodes[c].up = (label, nodes[i])
    return [n for n in nodes.values() if n.up is None or n.up[0] not in FUNCTIONAL]


def canonical(nodes, lm, tables, chunking):
    base = {}
    for n in nodes:
        n.std = rn.standard(n.text.lower(), lm)
        n.lemma, _ = rn.lemma(n.std, n.tag, lm, tables)
    for n in nodes:
        if not n.kids and n.up and (n.up[0] in ('PROP', 'IPROP') or (n.up[0] == 'CPL' and n.up[1].is_noun())):
            if n.is_noun() and n.lemma in tables['adjs']:
                n.tag = 'ADJ'
            elif n.tag == 'ADJ' and n.lemma in tables['nouns']:
                n.tag = 'NOUN'
    # Compounds
    heads = {}
    for n in nodes:
        if n.is_noun() and n.up and n.up[0] == 'CPL' and n.up[1].is_noun() and n.up[1].pos > n.pos and not n.via(*MARKS):
            heads[n] = n.up[1]
    for n in nodes:
        n.chunk = None
        if chunking and n not in heads:
            members = [n]
            for m in members:
                members.extend(k for k, h in heads.items() if h is m)
            if len(members) > 1:
                n.chunk = ' '.join(m.lemma for m in sorted(members, key=lambda m: m.pos))
    for n in nodes:
        n.past = False
        if n.tag == 'PRON' and n.lemma in TO_SUBJECT:
            n.canon = TO_SUBJECT[n.lemma]
        elif n.tag == 'NOUN' and n.chunk:
            n.canon = n.chunk
        elif n.tag == 'ADJ':
            verb, inflection = rn.lemma(n.std, 'VERB', lm, tables)
            n.past = inflection == 'PAST'
            n.active = ' '.join([verb] + n.after) if n.past else None
            n.canon = ' '.join([n.lemma] + n.after)
        elif n.tag == 'VERB':
            n.canon = ' '.join([n.lemma] + n.after)
        else:
            n.canon = n.lemma
    return base


def find_arguments(nodes, pronouns=True):
    for n in nodes:
        n.group = n.via('AND') + n.via('OR')
        n.neg = bool(n.via('NEG'))

    def relative(verb, pron):
        if pronouns and pron.tag == 'PRON' and pron.canon in RELATIVE and verb.up and verb.up[0] == 'CPL' and verb.up[1].is_noun() \
                and not verb.via(*MARKS):
            return verb.up[1]

    def own_subject(verb, pron):
        if pronouns and pron.canon in REFLEXIVE:
            return verb.first('SUBJ')

    def outer_subject(verb, pron):
        if pronouns and pron.canon in REFLEXIVE and verb.up and verb.up[0] == 'OBJ' and verb.up[1].tag == 'VERB':
            return verb.up[1].first('SUBJ')

    def give_subject(verb, who):
        for v in [verb] + [c for c in verb.group if not c.via('SUBJ')]:
            v.subjs += who.all()

    def give_object(verb, what):
        for v in [verb] + [c for c in verb.group if not c.kids]:
            v.objs += what.all()

    bare, marked = set(), set()
    for n in nodes:
        if n.up is None:
            continue
        label, up = n.up
        if label == 'SUBJ':
            give_subject(up, relative(up, n) or outer_subject(up, n) or n)
        elif label == 'OBJ':
            give_object(up, relative(up, n) or own_subject(up, n) or n)
        elif label == 'IOBJ':
            up.iobjs += n.all()
        elif label == 'EXIST':
            up.exists += n.all()
        elif label == 'PROP':
            up.props += n.all()
            subj = up.first('SUBJ')
            if subj:
                for s in (relative(up, subj) or subj).all():
                    s.copulas += [(up, p) for p in n.all() if not p.via(*MARKS)]
        elif label == 'IPROP':
            up.iprops += n.all()
            if up.first('OBJ'):
                for o in up.first('OBJ').all():
                    o.triples += [(up.first('SUBJ'), up, p) for p in n.all()]
        elif label == 'CPL':
            mark = n.first('MARK')
            if not n.via(*MARKS):
                bare.add(n)
            if mark:
                marked.add(n)
                if mark.canon == 'by' and up.up and up.up[0] in ('PROP', 'CPL'):
                    up.agents += n.all()
            elif n.tag == 'ADJ':
                up.adjs += n.all()
                if up.is_noun() and n.past and n.via('PROP'):
                    up.pps += [(n, p) for p in n.first('PROP').all()]
            if n.via('CMARK') and up.tag == 'ADJ' and n.is_noun():
                n.adjs += up.all()
    for n in nodes:
        if n.up is None:
            continue
        up = n.up[1]
        if n in marked and n.tag == 'VERB' and not n.via('SUBJ') and up.tag == 'VERB':
            if up.first('SUBJ'):
                give_subject(n, up.first('SUBJ'))
        elif pronouns and n in bare and up.is_noun() and not n.via('OBJ'):
            subj = n.first('SUBJ')
            if subj and subj.canon not in RELATIVE:
                give_object(n, up)


def extract(nodes, lm, tables):
    out, inner = [], set()

    def add(family, args, parts, verb=1):
        """parts: words whose negations count (a list counts as negative when all its members are)"""
        negs = sum((bool(p) and all(x.neg for x in p)) if isinstance(p, list) else p.neg for p in parts)
        flat = [x for p in parts for x in (p if isinstance(p, list) else [p])]
        out.append(T(family, tuple(w for w, _ in args), ''.join(c for _, c in args), negs % 2 == 1, tuple(sorted({x.pos for x in flat}))))

    def noun(n):
        return n.canon, n.noun_code()

    def participle(verb):
        return ' '.join([rn.participle(verb.lemma, lm, tables['lemma_pp'])] + verb.after)

    predicates = [n for n in nodes if n.tag == 'VERB' and not n.inf and not n.intransitive_only()]
    for v in predicates:
        for s in filter(W.is_noun, v.subjs):
            for o in [o for o in v.objs if o.tag == 'VERB']:
                inner.add(o)
                for s2 in filter(W.is_noun, o.subjs or [s]):
                    start = [noun(s), (v.canon, 'T'), noun(s2)]
                    if not o.intransitive_only():
                        if not o.objs and o.canon not in NO_INTRANSITIVE:
                            add('clause', start + [(o.canon, 'I')], [s, v, s2, o])
                        for o2 in filter(W.is_noun, o.objs):
                            add('clause', start + [(o.canon, 'T'), noun(o2)], [s, v, s2, o, o2])
                    for p in o.props:
                        add('clause', start + [(o.canon, 'C'), (p.canon, p.prop_code())], [s, v, s2, o, p])
    for v in predicates:
        if v in inner:
            continue
        for s in filter(W.is_noun, v.subjs):
            if not v.objs and v.canon not in NO_INTRANSITIVE:
                add('pred', [noun(s), (v.canon, 'I')], [s, v])
            for o in filter(W.is_noun, v.objs):
                add('pred', [noun(s), (v.canon, 'T'), noun(o)], [s, v, o])
            for r in filter(W.is_noun, v.iobjs):
                add('pred', [noun(s), (v.canon, 'R'), noun(r)], [s, v, r])
    for n in nodes:
        if not n.is_noun():
            continue
        for subj, v, p in n.triples:
            if p.is_noun() or p.tag == 'ADJ':
                add('prop', [noun(n), ('be ' + participle(v), 'C'), (p.canon, p.prop_code())], ([subj] if subj else []) + [v, n, p])
        for c, p in n.copulas:
            if p.is_noun() or p.tag == 'ADJ':
                add('prop', [noun(n), (c.canon, 'C'), (p.canon, p.prop_code())], [n, c, p])
                if p.active:
                    for a in filter(W.is_noun, p.agents):
                        add('active', [noun(a), (p.active, 'T'), noun(n)], [a, c, p, n])
        for pp, p in n.pps:
            if p.is_noun() or p.tag == 'ADJ':
                add('prop', [noun(n), ('be ' + pp.canon, 'C'), (p.canon, p.prop_code())], [n, pp, p])
        for a in n.adjs:
            add('prop', [noun(n), ('be', 'C'), (a.canon, a.adj_code())], [n, a])
            if a.active:
                for g in filter(W.is_noun, a.agents):
                    add('active', [noun(g), (a.active, 'T'), noun(n)], [g, a, n])
    for v in nodes:
        if v.tag == 'VERB' and not v.intransitive_only() and v.canon not in NO_PASSIVE:
            for o in filter(W.is_noun, v.objs):
                add('passive', [noun(o), ('be', 'C'), (participle(v), 'L')], [v.subjs, v, o])
    return out


def wordings(nodes, lm, tables):
    """Every way an argument may be worded"""
    out = {'be'}
    for n in nodes:
        pp = ' '.join([rn.participle(n.lemma, lm, tables['lemma_pp'])] + n.after)
        out |= {n.canon, pp, 'be ' + pp, 'be ' + n.canon}
        if n.active:
            out.add(n.active)
    return out


def analyse(tokens, tags, arcs, root, lm, tables, chunking=True, pronouns=True, words=False):
    if root is None:
        return set() if words else []
    nodes = groups(tokens, tags, arcs, root)
    canonical(nodes, lm, tables, chunking)
    if words:
        return wordings(nodes, lm, tables)
    find_arguments(nodes, pronouns)
    return extract(nodes, lm, tables)


def sample_arcs(sample):
    """Arcs of [(token, tag, dep, parent)] in order of registration"""
    return [(d, p, i) for i, (_, _, d, p) in enumerate(sample) if d not in ('ROOT', 'NODEP') and p > -1]


def of_sample(sample, lm, tables, **kw):
    roots = [i for i, r in enumerate(sample) if r[2] == 'ROOT']
    return analyse([r[0] for r in sample], [r[1] for r in sample], sample_arcs(sample), roots[0] if roots else None, lm, tables, **kw)
