"""Dictionary mined from the sources under test: their string constants and samples of their regular expressions are
used as seeds by the text generators, so that inputs reach the branches the code distinguishes."""
import ast
import os
import random
import re

try:
    import re._parser as sre_parse
    import re._constants as sre_c
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as sre_c

from vlib import boot

_cache = {}


def _constants():
    if 'c' in _cache:
        return _cache['c']
    strings, patterns, ints = set(), set(), set()
    for root, _, files in os.walk(boot.PKG):
        for fn in sorted(files):
            if not fn.endswith('.py'):
                continue
            try:
                with open(os.path.join(root, fn), encoding='utf-8') as f:
                    tree = ast.parse(f.read())
            except (SyntaxError, OSError):
                continue
            docs = set()
            for node in ast.walk(tree):
                if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)) and node.body and \
                        isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
                    docs.add(id(node.body[0].value))
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant) and id(node) not in docs:
                    if isinstance(node.value, str) and 0 < len(node.value) <= 120:
                        strings.add(node.value)
                    elif isinstance(node.value, int) and not isinstance(node.value, bool) and 0 <= node.value < 10000:
                        ints.add(node.value)
    for s in strings:
        if any(c in s for c in '\\[(|+*?^$'):
            try:
                sre_parse.parse(s)
                patterns.add(s)
            except Exception:
                pass
    _cache['c'] = sorted(s for s in strings if len(s) <= 25), sorted(patterns), sorted(ints)
    return _cache['c']


def strings():
    return _constants()[0]


def patterns():
    return _constants()[1]


def ints():
    return _constants()[2]


_CAT = {'CATEGORY_DIGIT': '0123456789', 'CATEGORY_SPACE': '    \t\u00a0', 'CATEGORY_WORD': 'abcdefgzABCZ019_é',
        'CATEGORY_NOT_SPACE': 'ab1.,-/\'"', 'CATEGORY_NOT_DIGIT': 'ab .,', 'CATEGORY_NOT_WORD': ' .,-&'}
_ANY = 'abcXYZ019 .,:;!?\'"-/&%*+()é'


def _gen(rng, tree, out, depth=0):
    for op, arg in tree:
        name = str(op)
        if name == 'LITERAL':
            out.append(chr(arg))
        elif name == 'NOT_LITERAL':
            out.append(rng.choice([c for c in _ANY if ord(c) != arg]))
        elif name == 'ANY':
            out.append(rng.choice(_ANY))
        elif name == 'IN':
            out.append(_pick(rng, arg))
        elif name in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
            lo, hi, sub = arg
            hi = min(int(hi), lo + rng.choice([0, 1, 1, 2, 4]))
            for _ in range(rng.randint(lo, max(lo, hi))):
                _gen(rng, sub, out, depth + 1)
        elif name == 'SUBPATTERN':
            _gen(rng, arg[-1], out, depth + 1)
        elif name == 'BRANCH':
            _gen(rng, rng.choice(arg[1]), out, depth + 1)
        elif name == 'ASSERT':
            _gen(rng, arg[1], out, depth + 1)
        elif name == 'ATOMIC_GROUP':
            _gen(rng, arg, out, depth + 1)


def _pick(rng, items):
    neg = any(str(op) == 'NEGATE' for op, _ in items)
    if neg:
        banned = []
        for op, arg in items:
            if str(op) == 'LITERAL':
                banned.append(chr(arg))
            elif str(op) == 'CATEGORY':
                banned.extend(_CAT.get(str(arg), ''))
            elif str(op) == 'RANGE':
                banned.extend(chr(c) for c in range(arg[0], min(arg[1], arg[0] + 200) + 1))
        pool = [c for c in _ANY if c not in banned and not (c.isspace() and any(
            str(op) == 'CATEGORY' and 'SPACE' in str(a) for op, a in items))]
        return rng.choice(pool or ['x'])
    pool = []
    for op, arg in items:
        if str(op) == 'LITERAL':
            pool.append(chr(arg))
        elif str(op) == 'RANGE':
            pool.append(chr(rng.randint(arg[0], arg[1])))
        elif str(op) == 'CATEGORY':
            pool.append(rng.choice(_CAT.get(str(arg), 'a')))
    return rng.choice(pool or ['x'])


def regex_sample(rng):
    pats = patterns()
    if not pats:
        return 'x'
    out = []
    try:
        _gen(rng, sre_parse.parse(rng.choice(pats)), out)
    except Exception:
        return 'x'
    return ''.join(out)[:40]
