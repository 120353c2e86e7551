"""Reported times against a clock under control."""
import contextlib
import importlib
import threading
import time
import timeit
from unittest import mock

from vlib.core import Kind

RULE = ('Timers under a clock that only moves when the monitor moves it (by 0 to 400 hours, in quarters of a second): sequences of 1 to 25 (sometimes 1200) reports of laps and totals, several timers at once. Every report is compared with the '
        'time since the construction or the report before. Non-trivial: five reports or more, both kinds among them.')
REQUIRE = {'laps': 5000, 'totals': 5000, 'hours': 1000, 'carried': 300, 'several_timers': 200, 'long_runs': 10, 'distinct_nontrivial': 500}
ANCHORS = ['utils/timer.py']


def _step(rng):
    k = rng.random()
    if k < .15:
        return 0
    if k < .4:
        return rng.randint(1, 4 * 70)
    if k < .6:
        return rng.choice([1, 3, 4, 4 * 59, 4 * 59 + 3, 4 * 60, 4 * 61, 4 * 3599, 4 * 3599 + 3, 4 * 3600, 4 * 3601, 4 * 3660, 4 * 36000, 4 * 86399, 4 * 86400, 4 * 86401, 4 * 360000])
    return rng.randint(1, 4 * 3600 * rng.choice([1, 2, 30, 400]))


def _gen(rng, ctx):
    timers = rng.choice([1, 1, 1, 2, 3])
    return {'start': rng.randint(0, 10 ** 7), 'timers': timers,
            'events': [[_step(rng), rng.randrange(timers), rng.choice(['lap', 'lap', 'total'])] for _ in range(rng.randint(1, 25) if rng.random() < .99 else rng.choice([250, 1200]))]}


@contextlib.contextmanager
def _clock(now):
    """Every clock of this thread shows now[0] quarters of a second"""
    me = threading.get_ident()
    with contextlib.ExitStack() as stack:
        for module, name, unit in ((timeit, 'default_timer', 1), (time, 'perf_counter', 1), (time, 'monotonic', 1), (time, 'time', 1), (time, 'perf_counter_ns', 10 ** 9), (time, 'monotonic_ns', 10 ** 9), (time, 'time_ns', 10 ** 9)):
            real = getattr(module, name)

            def fake(real=real, unit=unit):
                if threading.get_ident() != me:
                    return real()
                return now[0] / 4 if unit == 1 else now[0] * unit // 4
            stack.enter_context(mock.patch.object(module, name, fake))
        yield


def _text(quarters):
    seconds = quarters // 4
    return '%d:%02d:%02d' % (seconds // 3600, seconds // 60 % 60, seconds % 60)


def _check(ctx, case):
    import scrappybara.utils.timer as module
    now = [case['start']]
    with _clock(now):
        importlib.reload(module)
        timers = [module.Timer() for _ in range(case['timers'])]
        born = [now[0]] * case['timers']
        last = list(born)
        seen = []
        for step, i, what in case['events']:
            now[0] += step
            observed = timers[i].lap_time if what == 'lap' else timers[i].total_time
            seen.append((what, now[0] - last[i], now[0] - born[i], observed))
            last[i] = now[0]
    for what, lap, total, observed in seen:
        wanted = lap if what == 'lap' else total
        ctx.equal(_text(wanted), observed, 'time of the %s' % what, seconds=wanted / 4, events=case['events'])
        ctx.count('laps' if what == 'lap' else 'totals')
        ctx.count('hours', wanted >= 4 * 3600)
        ctx.count('carried', wanted // 4 % 60 == 59 or wanted // 4 % 60 == 0)
    ctx.count('several_timers', case['timers'] > 1)
    ctx.count('long_runs', len(seen) > 200)
    if len(seen) >= 5 and len({s[0] for s in seen}) == 2:
        ctx.nontrivial(case)
    ctx.sample({'reports': seen[:5]})


KINDS = {'reports': Kind(_gen, _check, 6000, 60000)}
