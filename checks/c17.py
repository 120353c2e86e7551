"""Lemmatizer against the table-driven reference, over real and synthetic tables and language models."""
from vlib import gen_words as gw, lmfiles, ref_norm as rn
from vlib.core import Kind

RULE = ('Language models supporting a random part of the candidate lemmas, real or synthetic irregular tables, and words built from '
        'every ending, prefix, doubling and special form. The monitor compares lemma and inflection with the rules written as a table. '
        'Non-trivial: the lemma differs from the word or an inflection is reported; distinct by (word, tag, lemma).')
REQUIRE = {'lemmas': 50000, 'distinct_nontrivial': 10000, 'rule_hits': 30, 'kept': 2000, 'irregular': 3000, 'prefixed': 1000}
ANCHORS = ['normalization/lemmatizer.py', 'utils/text.py']


def setup(ctx):
    ctx.tables = lmfiles.load_tables()


def _gen(rng, ctx):
    tables = ctx.tables if rng.random() < .6 else None
    case = {'tables': None}
    if tables is None:
        tables = gw.small_tables(rng)
        case['tables'] = {k: sorted(v.items()) if isinstance(v, dict) else sorted(v) for k, v in tables.items()}
    queries = [gw.inflected(rng, tables) for _ in range(60)]
    case['queries'] = queries
    case['lm'] = gw.language_model(rng, queries)
    return case


def _check(ctx, case):
    from scrappybara.normalization.lemmatizer import Lemmatizer
    from scrappybara.syntax.tags import Tag
    if case['tables'] is None:
        t = ctx.tables
    else:
        t = {k: set(v) if k in ('adjs', 'nouns') else dict(v) for k, v in case['tables'].items()}
    lm, ref = lmfiles.install([{k: tuple(v) for k, v in table.items()} for table in case['lm']])
    lemmatize = Lemmatizer(lm, t['adjs'], t['pret'], t['pp'], t['plur'], t['comp'], t['sup'], t['lemma_pp'])
    for word, tag in case['queries']:
        expected = rn.lemma(word, tag, ref, t)
        lemma, suffix = lemmatize(word, Tag[tag])
        name = None if suffix is None else getattr(suffix, 'name', suffix)
        ctx.equal(list(expected), [lemma, name], 'lemma of %r as %s' % (word, tag))
        ctx.count('lemmas')
        low = word.lower()
        if expected[0] == low and expected[1] is None:
            ctx.count('kept')
        else:
            ctx.nontrivial([low, tag, lemma])
            for i, (ending, _, _, inflection) in enumerate(rn.RULES.get(tag, ())):
                if expected[1] == inflection and low.endswith(ending):
                    ctx.seen('rule_hits', [tag, i, len(lemma) - len(low)])
        if rn._irregular(low, tag, t):
            ctx.count('irregular')
        if rn.prefix_of(low) and expected[1]:
            ctx.count('prefixed')
    ctx.sample({'words': case['queries'][:5]})


KINDS = {'words': Kind(_gen, _check, 7200, 40000)}
