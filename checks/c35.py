"""Parallel map and partitions."""
import collections
import threading
import time

from vlib import sched
from vlib.core import Kind

RULE = ('Maps over 0 to 40 items with 1 to 50 threads (some of up to 600 items and threads) under a controlled scheduler (one thread at a time, seeded choice at every line), under random delays (slow first, slow last, random), with items that outlast any time limit of the code (waits with a limit are cut to a hundred-thousandth of it) and from several threads at once; the recorded call '
        'history must hold every item exactly once and the results be in order. Partitions: all lists of 0 to 120 items by 1 to 130 pieces, and larger samples. Non-trivial: a map with at least two threads and three items; distinct by interleaving.')
REQUIRE = {'maps': 800, 'long_maps': 40, 'large_maps': 10, 'calls': 10000, 'distinct_nontrivial': 200, 'partitions': 10000}
ANCHORS = ['utils/multithreading.py', 'utils/mutables.py']


def _gen_map(rng, ctx):
    n = rng.choice([0, 1, 2, 3, 5, 8, 13, 40]) if rng.random() < .5 else rng.randint(0, 24)
    return {'n': n, 'threads': rng.choice([1, 2, 3, 4, 8, n, n + 1, 2 * n + 1, 50]) or 1, 'mode': rng.choice(['sched', 'sched', 'jitter', 'slow_first', 'slow_last']) if n > 8 or rng.random() < .9 else 'long', 'seed': rng.randrange(10 ** 9),
            'values': rng.choice(['unique', 'equal', 'falsy', 'lists']), 'callers': rng.choice([1, 1, 1, 2, 3]), 'p': rng.choice([.1, .4, .9]), 'type': rng.choice(['list', 'list', 'tuple'])}


def _value(kind, i):
    if kind == 'unique':
        return 'r%d' % i
    if kind == 'equal':
        return 'same'
    if kind == 'falsy':
        return [None, 0, '', False][i % 4]
    return [i] * (i % 3)


class _Item(object):

    def __init__(self, i):
        self.i = i

    def __eq__(self, other):
        return True  # Items cannot be told apart by value

    __hash__ = None


def _gen_map_large(rng, ctx):
    """Hundreds of items or threads"""
    n = rng.choice([70, 200, 600])
    return {'n': n, 'threads': rng.choice([3, 8, 65, 100, n, 400]), 'mode': 'jitter', 'seed': rng.randrange(10 ** 9), 'values': rng.choice(['unique', 'lists']), 'callers': 1, 'p': .1, 'type': 'list'}


def check_map(ctx, case):
    from scrappybara.utils.multithreading import run_multithreads
    n, mode = case['n'], case['mode']
    monitor = {'sched': sched.Scheduler, 'long': sched.Dilated}.get(mode, sched.Jitter)(case['seed'], **({'p_switch': case['p']} if mode == 'sched' else {}))
    history, lock = [], threading.Lock()

    def one(caller):
        items = [_Item(i) for i in range(n)]
        kept = list(items)
        items = tuple(items) if case['type'] == 'tuple' else items

        def fn(item):
            with lock:
                history.append((caller, 'call', item.i))
            if mode == 'slow_first':
                time.sleep(max(0, .004 - .0004 * item.i))
            elif mode == 'slow_last':
                time.sleep(min(.004, .0004 * item.i))
            if mode != 'long' or item.i in (0, n - 1):
                monitor.point()
            with lock:
                history.append((caller, 'end', item.i))
            return _value(case['values'], item.i)

        out = run_multithreads(items, fn, case['threads'])
        ctx.equal([_value(case['values'], i) for i in range(n)], list(out), 'results of the map, in order')
        ctx.check(len(items) == n and all(a is b for a, b in zip(items, kept)), 'items were changed')

    errors = []
    with monitor:
        if case['callers'] == 1:
            one(0)
        else:
            def body(c):
                try:
                    one(c)
                except BaseException as e:
                    errors.append(e)
            callers = [threading.Thread(target=body, args=(c,)) for c in range(case['callers'])]
            [t.start() for t in callers]
            [t.join() for t in callers]
            ctx.count('concurrent')
    if errors:
        raise errors[0]
    calls = collections.Counter((c, i) for c, what, i in history if what == 'call')
    ctx.equal({(c, i): 1 for c in range(case['callers']) for i in range(n)}, dict(calls), 'calls of the function, per item')
    ctx.count('maps')
    ctx.count('large_maps', n > 64 and case['threads'] > 64)
    ctx.count('long_maps', mode == 'long' and n > 0)
    ctx.count('calls', len(calls))
    ctx.count('switches', monitor.switches)
    ctx.count('scheduler_timeouts', monitor.timeouts)
    ends = [i for c, what, i in history if what == 'end' and c == 0]
    if ends != sorted(ends):
        ctx.count('overtaken')
    if case['threads'] > 1 and n > 2:
        sig = monitor.signature or str(history)
        ctx.seen('interleavings', [n, case['threads'], sig])
        ctx.nontrivial([n, case['threads'], sig])
        ctx.sample({'items': n, 'threads': case['threads'], 'mode': mode, 'history': history[:12]})


def _partition(ctx, items, pieces, what, k):
    ctx.equal(items, [x for p in pieces for x in p], '%s: concatenation of the pieces' % what, pieces=k)
    sizes = [len(p) for p in pieces]
    ctx.count('partitions')
    return sizes


def _divide(ctx, items, k):
    from scrappybara.utils.mutables import divide_list, make_batches
    kept = list(items)
    sizes = _partition(ctx, kept, divide_list(items, k), 'divide_list', k)
    ctx.check(len(sizes) <= k, 'more pieces than asked for', n=len(items), k=k, sizes=sizes)
    ctx.check(not sizes or max(sizes) - min(sizes) <= 1, 'unbalanced pieces', n=len(items), k=k, sizes=sizes)
    sizes = _partition(ctx, kept, make_batches(items, k), 'make_batches', k)
    ctx.check(all(s == k for s in sizes[:-1]) and (not sizes or 0 < sizes[-1] <= k), 'batches', n=len(items), k=k, sizes=sizes)
    ctx.check(items == kept, 'the list was changed')


def _gen_all(rng, ctx):
    return {'n': ctx_index(ctx)}


def ctx_index(ctx):
    ctx.next_n = getattr(ctx, 'next_n', ctx.shard - ctx.nshards) + ctx.nshards
    return ctx.next_n % 121


def check_all(ctx, case):
    for k in range(1, 131):
        _divide(ctx, list(range(case['n'])), k)


def _gen_big(rng, ctx):
    n = rng.randint(0, 6000)
    return {'n': n, 'k': rng.choice([rng.randint(1, 70), rng.randint(1, n + 2), 7, 8, 12, 128])}


def check_big(ctx, case):
    _divide(ctx, list(range(case['n'])), case['k'])


KINDS = {'map': Kind(_gen_map, check_map, 2400, 40000), 'map_large': Kind(_gen_map_large, check_map, 48, 800), 'all_partitions': Kind(_gen_all, check_all, 968, 968), 'big_partitions': Kind(_gen_big, check_big, 2000, 40000)}
