"""Queries of the language model against the loaded n-grams."""
import re

from vlib import gen_corpus as gc, lmfiles
from vlib.core import Kind

RULE = ('Models of one to four (sometimes eight) orders, some with tens of thousands of contexts, some with hundreds of n-grams that start alike, over small vocabularies (so that contexts and candidates meet), ties and tiny probabilities included; every query with known, unknown, '
        'partly known and too long arguments, contexts shorter and longer than the model or with words and marks glued together, limits from 0 up. Ties are set-valued for the monitor. '
        'Non-trivial: a query whose answer is neither empty nor the only possible one.')
REQUIRE = {'queries': 30000, 'distinct_nontrivial': 10000, 'best_token': 5000, 'decided_by_context': 1000, 'decided_by_lower_order': 80, 'next_word': 3000, 'none_known': 500,
           'backed_off': 300, 'many_candidates': 1000, 'spelled_contexts': 1000, 'many_next': 30, 'high_orders': 100, 'vast': 8}
ANCHORS = ['langmodel/language_model.py', 'langmodel/token_context.py']

_V = 'ab cd ef gh ij kl mn op qr st'.split()
_CASED = 'us US Us ab AB Ab été Été'.split()


def _tokens(text):
    return re.sub('([,;()!])', r' \1 ', re.sub(r'\bcannot\b', 'can not', text)).split()


def _gen(rng, ctx):
    orders = rng.randint(1, 4) if rng.random() < .96 else rng.randint(5, 8)
    vocab = _V[:rng.choice([2, 3, 5, 8])]
    if orders > 4:
        vocab = vocab[:2]
    wide = rng.random() < .01
    if rng.random() < .3 and orders < 5:
        vocab = rng.sample(_CASED, rng.choice([3, 5, 8]))   # words that differ by case only, some of them unknown to the model
    if rng.random() < .2:
        vocab = vocab + ['can', 'not']
    tables = []
    ties = rng.random() < .4
    for n in range(1, orders + 1):
        size = rng.choice([3, 10, 40])
        grams = sorted({' '.join(rng.choice(vocab if rng.random() < .9 else _V + _CASED) for _ in range(n)) for _ in range(size)})
        if ties:
            tables.append({g: (rng.choice([1, 2, 5]), rng.choice([.1, .01, .001, .0001] if rng.random() < .9 else [1e-13, 1e-15, 2e-15])) for g in grams})
        else:
            if wide and n > 1:
                grams += ['%s w%s' % (' '.join(rng.choice(vocab[:2]) for _ in range(n - 1)), gc.spell(i)) for i in range(rng.choice([60, 250, 1200]))]
            tables.append(lmfiles.distinct_probas(rng, grams, rng.choice([1e-3, 1e-3, 1e-6, 1e-10, 1e-13, 1e-16])))
    queries = []

    def words(lo, hi):
        return [rng.choice(vocab + ['zz'] * (rng.random() < .2)) for _ in range(rng.randint(lo, hi))]

    def context(lo, hi):
        """Text whose tokens are not just what blanks separate"""
        text = ' '.join(words(lo, hi))
        if rng.random() < .25:
            text = re.sub(r'\bcan not\b', 'cannot', text)
            if rng.random() < .8:
                parts = text.split(' ')
                i = rng.randrange(len(parts))
                parts[i] = rng.choice([parts[i] + ',', parts[i] + ';', '(' + parts[i], parts[i] + ')', parts[i] + '!', parts[i] + '  ', ' ' + parts[i]])
                text = ' '.join(parts)
            ctx.count('spelled_contexts', len(_tokens(text)) != text.count(' ') + 1)
        return text

    def unknown():
        # a long list of candidates, the known ones being few and anywhere
        return ['w%s' % chr(97 + i % 26) * (1 + i // 26) for i in range(rng.choice([9, 15, 25, 40, 120]))]

    for _ in range(24):
        kind = rng.choice(['best_token', 'best_token', 'best_ngram', 'next_word', 'top', 'has'])
        if kind == 'best_token':
            q = [words(1, 4), rng.choice([None, '', context(0, max(5, orders + 1))]), rng.choice([None, '', context(0, max(5, orders + 1))])]
            if rng.random() < .1:
                q[0] = ['zz', 'yy'][:rng.randint(1, 2)]
            elif rng.random() < .06:
                q[0] = unknown() + q[0] if rng.random() < .6 else q[0] + unknown()
                ctx.count('many_candidates')
        elif kind == 'best_ngram':
            q = [[' '.join(words(1, max(4, orders))) for _ in range(rng.randint(1, 5))]]
            if rng.random() < .1:
                q[0] = unknown() + q[0] if rng.random() < .6 else q[0] + unknown()
                ctx.count('many_candidates')
        elif kind == 'next_word':
            q = [context(0, max(6, orders + 1)), rng.choice([None, 0, 1, 2, 3, 50])]
            if wide:
                q = [rng.choice(vocab[:2]), rng.choice([None, None, 150, 5])]
        elif kind == 'top':
            q = [rng.randint(1, 5), rng.choice([None, 0, 1, 2, 5, 100])]
        else:
            q = [' '.join(words(1, max(4, orders))), rng.choice([0, -1, 1, 2, 3, 5, 6])]
        queries.append([kind] + q)
    return {'tables': tables, 'queries': queries, 'unsorted': rng.random() < .4}


def _ranked(ctx, pairs, observed, limit, what):
    """Observed must be the top of the pairs by decreasing last element, ties in any order"""
    pairs = [tuple(p) for p in pairs]
    observed = [tuple(o) for o in observed]
    k = len(pairs) if limit is None else min(limit, len(pairs))
    ok = len(observed) == k and len(set(observed)) == k and set(observed) <= set(pairs)
    ok = ok and [o[-1] for o in observed] == sorted((p[-1] for p in pairs), reverse=True)[:k]
    ctx.check(ok, what, candidates=sorted(pairs, key=lambda p: -p[-1]), limit=limit, observed=observed)


def _check(ctx, case):
    tables = [{k: tuple(v) for k, v in t.items()} for t in case['tables']]
    lm, ref = lmfiles.install(tables, case.get('unsorted', False))
    orders = len(tables)
    ctx.count('high_orders', orders > 4)
    ctx.equal(len(ref.table), len(lm), 'size')
    for query in case['queries']:
        kind, args = query[0], query[1:]
        ctx.count('queries')
        if kind == 'has':
            ngram, least = args
            ctx.equal(ngram in ref, ngram in lm, 'membership of %r' % ngram)
            ctx.equal(least >= 1 and ref.has(ngram, least), bool(lm.has_ngram(ngram, least)), 'has_ngram%r' % (tuple(args),))
            ctx.equal(ref.has(ngram), bool(lm.has_ngram(ngram)), 'has_ngram(%r)' % ngram)
        elif kind == 'top':
            order, limit = args
            pairs = [(g, c, p) for g, (c, p) in ref.table.items() if len(g.split()) == order]
            _ranked(ctx, pairs, lm.top_ngrams(order, limit), limit, 'top n-grams of order %d' % order)
            if len(pairs) > 1 and limit != 0:
                ctx.nontrivial([case['tables'], query])
        elif kind == 'next_word':
            text, limit = args
            tokens = _tokens(text)
            pairs = []
            for k in range(min(orders - 1, len(tokens)), 0, -1):
                head = tokens[-k:]
                pairs = [(g.split()[-1], p) for g, (c, p) in ref.table.items() if g.split()[:-1] == head]
                if pairs:
                    ctx.count('next_word')
                    if k < min(orders - 1, len(tokens)):
                        ctx.count('backed_off')
                    break
            ctx.count('many_next', len(pairs) > 100 and limit is None or (limit or 0) > 100)
            _ranked(ctx, pairs, lm.next_word(text, limit) if limit is not None else lm.next_word(text), limit, 'next words after %r' % text)
            if len(pairs) > 1 and limit != 0:
                ctx.nontrivial([case['tables'], query])
        elif kind == 'best_ngram':
            grams = args[0]
            observed = lm.best_ngram(*grams)
            known = [g for g in grams if g in ref]
            if not known:
                ctx.equal(None, observed, 'best of unknown n-grams %r' % grams)
                ctx.count('none_known')
            else:
                top = max(ref.proba(g) for g in known)
                ctx.check(observed in known and ref.proba(observed) == top, 'best n-gram among %r' % grams, observed=observed,
                          probas={g: ref.proba(g) for g in grams})
                if len(set(grams)) > 1:
                    ctx.nontrivial([case['tables'], query])
        else:
            tokens, before, after = args
            observed = lm.best_token(*tokens, before=before, after=after)
            if not any(t in ref for t in tokens):
                ctx.equal(None, observed, 'best of unknown tokens %r' % tokens)
                ctx.count('none_known')
                continue
            left, right = _tokens(before or ''), _tokens(after or '')
            ranks = {}
            for token in tokens:
                line, at = left + [token] + right, len(left)
                rank = []
                for n in range(orders, 0, -1):
                    windows = [line[i:i + n] for i in range(len(line) - n + 1) if i <= at < i + n]
                    rank.append(max([ref.proba(' '.join(w)) for w in windows] or [0.]))
                ranks[token] = rank
            top = max(ranks.values())
            ctx.check(observed in tokens and ranks[observed] == top, 'best token among %r' % tokens, before=before, after=after, observed=observed, ranks=ranks)
            ctx.count('best_token')
            if len(set(tokens)) > 1:
                ctx.nontrivial([case['tables'], query])
                others = [r for t, r in ranks.items() if r != top]
                if any(sum(r[:-1]) for r in ranks.values()) and others:
                    ctx.count('decided_by_context')
                if orders > 1 and any(r[0] == top[0] and r[0] > 0 for r in others):
                    ctx.count('decided_by_lower_order')
                ctx.sample({'query': query, 'ranks': ranks, 'answer': observed})


def _gen_vast(rng, ctx):
    """More contexts than any table of the other models has"""
    n = rng.choice([20000, 66000])
    heads = ['h' + gc.spell(i) for i in range(n)]
    unigrams = lmfiles.distinct_probas(rng, heads[:200] + ['ab', 'cd', 'ef'], 1e-4)
    bigrams = {}
    for h in heads[:40] + rng.sample(heads[40:], 60) + heads[-40:]:
        for w in ('ab', 'cd', 'ef'):
            bigrams['%s %s' % (h, w)] = (rng.randint(1, 9), rng.randint(1, 10 ** 6) / 2. ** 30)
    for h in heads:
        bigrams.setdefault('%s ab' % h, (1, 1e-9))
    some = heads[:20] + heads[-40:] + rng.sample(heads, 20)
    queries = [['next_word', h, rng.choice([None, 1, 2])] for h in some[:6] + some[20:60:3] + some[-6:]]
    queries += [['best_token', ['ab', 'cd', 'ef'], h, None] for h in some] + [['has', '%s ab' % h, 1] for h in some] + [['top', 2, 5], ['top', 1, None]]
    ctx.count('vast')
    return {'tables': [unigrams, bigrams], 'queries': queries, 'unsorted': True}


KINDS = {'queries': Kind(_gen, _check, 16000, 150000), 'vast': Kind(_gen_vast, _check, 8, 24)}
