"""Controlled interleaving of the threads the code under test starts.

Worker threads are traced line by line in the code of the repository.  One thread runs at a time; at every traced line (and at every explicit
point()) a seeded generator decides which thread goes on.  A thread that waits too long (the chosen one is blocked or gone) goes on by itself, so the
scheduler never deadlocks correct code.  The sequence of decisions identifies the interleaving.
"""
import hashlib
import os
import random
import sys
import threading
import time

from vlib import boot

_PKG = os.path.realpath(boot.PKG) + os.sep
_MISC = {}


def _in_repo(code):
    fn = code.co_filename
    if fn not in _MISC:
        _MISC[fn] = os.path.realpath(fn).startswith(_PKG)
    return _MISC[fn]


def some_files(rng):
    """None (every line is a switching point), or a predicate that selects about one file of the package in five"""
    share, salt = rng.choice([.1, .2, .4]), rng.randint(0, 10 ** 9)
    return None if rng.random() < .2 else lambda fn: random.Random('%s/%d' % (fn[len(_PKG) - 1:], salt)).random() < share


class Scheduler(object):

    def __init__(self, seed, p_switch=.3, only=None, max_points=20000):
        self.rng = random.Random('sched/%s' % seed)
        self.p = p_switch
        self.only = (lambda fn: fn.endswith(only)) if isinstance(only, tuple) else only  # Names of files (ends) to trace or predicate, None for all
        self.traced = {}
        self.lock = threading.Lock()
        self.events = {}  # ident => Event
        self.order = {}  # ident => ordinal
        self.waiting = set()
        self.current = None
        self.trail = hashlib.blake2b(digest_size=8)
        self.switches = 0
        self.points = 0
        self.timeouts = 0
        self.max_points = max_points
        self.off = False
        self.local = threading.local()

    # Installation
    def __enter__(self):
        self.old_interval = sys.getswitchinterval()
        threading.settrace(self._trace)
        return self

    def __exit__(self, *exc):
        threading.settrace(None)
        self.off = True
        with self.lock:
            for e in self.events.values():
                e.set()

    @property
    def signature(self):
        return self.trail.hexdigest()

    # Tracing
    def _trace(self, frame, event, arg):
        if self.off or not _in_repo(frame.f_code):
            return None
        if self.only:
            fn = frame.f_code.co_filename
            if fn not in self.traced:
                self.traced[fn] = self.only(os.path.realpath(fn))
            if not self.traced[fn]:
                return None
        if not hasattr(self.local, 'depth'):
            self.local.depth = 0
        self.local.depth += 1
        return self._line

    def _line(self, frame, event, arg):
        if event == 'return':
            self.local.depth -= 1
            if self.local.depth == 0:
                self.leave()
        elif event == 'line':
            self.point(frame.f_lineno)
        return self._line

    # Scheduling
    def leave(self):
        """The calling thread has left the code under test"""
        me = threading.get_ident()
        with self.lock:
            self.events.pop(me, None)
            self.waiting.discard(me)
            if self.current == me:
                self.current = None
                self._pass()

    def _pass(self):
        others = sorted(self.waiting, key=self.order.get)
        if others:
            self.current = self.rng.choice(others)
            if self.current in self.events:
                self.events[self.current].set()

    def point(self, line=0):
        if self.off:
            return
        me = threading.get_ident()
        if not hasattr(self.local, 'started'):
            self.local.started = True
            time.sleep(.002)  # Lets the thread that starts the workers go on
        with self.lock:
            self.points += 1
            if self.points > self.max_points:
                self.off = True
                for e in self.events.values():
                    e.set()
                return
            if me not in self.events:
                self.events[me] = threading.Event()
                self.order[me] = len(self.order)
            event = self.events[me]
            if self.current is None:
                self.current = me
            if self.current == me:
                if not self.waiting or self.rng.random() >= self.p:
                    return
                self.waiting.add(me)
                event.clear()
                self._pass()
                self.switches += 1
                self.trail.update(('%d@%d>%d;' % (self.order[me], line, self.order.get(self.current, -1))).encode())
                if self.current == me:
                    self.waiting.discard(me)
                    return
            else:
                self.waiting.add(me)
                event.clear()
        woke = event.wait(.01)
        with self.lock:
            self.waiting.discard(me)
            if not woke:
                self.timeouts += 1
                self.current = me


class Jitter(object):
    """Stress: tiny switch interval plus random delays at points"""

    def __init__(self, seed, interval=1e-6):
        self.rng = random.Random('jitter/%s' % seed)
        self.interval = interval
        self.lock = threading.Lock()
        self.points = self.switches = self.timeouts = 0
        self.signature = None

    def __enter__(self):
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(self.interval)
        return self

    def __exit__(self, *exc):
        sys.setswitchinterval(self.old)

    def point(self, line=0):
        with self.lock:
            self.points += 1
            k = self.rng.random()
        if k < .15:
            time.sleep(k * .005)
        elif k < .4:
            time.sleep(0)


class Dilated(object):
    """Time limits of the code under test run out long before slow work ends: waits with a limit wait for a tiny part of it, waits without any wait on"""

    def __init__(self, seed=0, factor=1e-5):
        self.factor = factor
        self.points = self.switches = self.timeouts = 0
        self.signature = None
        self.slow = .05
        self.limits = 0

    def _scaled(self, name, cls):
        original = getattr(cls, name)
        monitor = self

        def wait(self, timeout=None):
            if timeout is not None and timeout > 0:
                monitor.limits += 1
                timeout *= monitor.factor
            return original(self, timeout)
        self.patched.append((cls, name, original))
        setattr(cls, name, wait)

    def __enter__(self):
        self.patched = []
        self._scaled('join', threading.Thread)
        self._scaled('wait', threading.Condition)
        return self

    def __exit__(self, *exc):
        for cls, name, original in self.patched:
            setattr(cls, name, original)

    def point(self, line=0):
        self.points += 1
        time.sleep(self.slow)
