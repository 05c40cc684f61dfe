"""The execution seam: every executed line of the code under test is a point
at which the simulator can raise an exception or hand over to another thread.
Uses sys.monitoring, so that libraries run at full speed."""
import os
import sys
import threading

from . import core

mon = sys.monitoring
TOOL = 3
SRC = os.path.join(core.REPO, 'src') + os.sep


class Lines:
    """`with Lines(f):` calls f(code, line) before every executed line of the
    code under test; what f raises is raised there"""

    def __init__(self, f):
        self.f = f

    def __enter__(self):
        f, off = self.f, mon.DISABLE

        def on_line(code, line):
            if not code.co_filename.startswith(SRC):
                return off
            f(code, line)
        mon.use_tool_id(TOOL, 'verif')
        mon.register_callback(TOOL, mon.events.LINE, on_line)
        mon.restart_events()
        mon.set_events(TOOL, mon.events.LINE)
        return self

    def __exit__(self, *a):
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)
        return False


class Counter:
    "counts the lines executed, per function too"

    def __init__(self):
        self.n = 0
        self.first = {}            # function -> [number of each entered line]

    def __call__(self, code, line):
        self.n += 1
        k = code.co_filename[len(SRC):] + ':' + code.co_name
        x = self.first.get(k)
        if x is None:
            self.first[k] = [1, self.n, self.n]
        else:
            x[0] += 1
            x[2] = self.n


class Interrupt:
    "raises an exception at line number `at` (from 1), or in a function"

    def __init__(self, exc, at, function=None):
        self.exc, self.at, self.function = exc, at, function
        self.n = 0
        self.fired = None

    def __call__(self, code, line):
        if self.fired:
            return
        if self.function is not None and self.function != \
                code.co_filename[len(SRC):] + ':' + code.co_name:
            return
        self.n += 1
        if self.n >= self.at:
            self.fired = '%s:%s' % (code.co_filename[len(SRC):], code.co_name)
            raise self.exc


class Deep:
    """raises an exception when the code under test has made the libraries
    under it enter their function number `at` (from 1)"""

    def __init__(self, exc=None, at=0):
        self.exc, self.at = exc, at
        self.n = 0
        self.fired = None

    def __enter__(self):
        import openpyxl
        import pandas
        dirs = tuple(os.path.dirname(m.__file__) + os.sep
                     for m in (openpyxl, pandas))
        inside = [False]

        def on_start(code, offset):
            if not inside[0]:
                if code.co_filename.startswith(SRC):
                    inside[0] = True
                return
            if not code.co_filename.startswith(dirs):
                return
            self.n += 1
            if self.n == self.at:
                self.fired = '%s:%s' % (os.path.basename(code.co_filename),
                                        code.co_name)
                raise self.exc
        mon.use_tool_id(TOOL, 'verif')
        mon.register_callback(TOOL, mon.events.PY_START, on_start)
        mon.restart_events()
        mon.set_events(TOOL, mon.events.PY_START)
        return self

    def __exit__(self, *a):
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.PY_START, None)
        mon.free_tool_id(TOOL)
        return False


class Scheduler:
    """Runs functions in real threads of which one is awake at a time.  At
    every executed line of the code under test the quantum of the thread
    awake shrinks by one; when it is used up the next thread is chosen from
    the seeded stream."""

    def __init__(self, R, quanta):
        self.R, self.quanta = R, quanta
        self.gates = []
        self.alive = set()
        self.me = threading.local()
        self.current = None
        self.left = 0
        self.switches = 0
        self.lines = 0
        self.trace = []
        self.ended = threading.Semaphore(0)

    def draw(self):
        self.left = self.R.choice(self.quanta)
        if self.left > 4:
            self.left = self.R.randint(self.left//2, self.left)

    def next_thread(self, other=False):
        c = sorted(self.alive)
        if other and len(c) > 1:
            c = [i for i in c if i != self.current]
        return self.R.choice(c)

    def switch(self, other=False):
        "called by the thread awake"
        me = self.current
        to = self.next_thread(other)
        self.draw()
        if to == me:
            return
        self.switches += 1
        self.current = to
        self.gates[to].release()
        self.gates[me].acquire()

    def on_line(self, code, line):
        if getattr(self.me, 'id', None) is None:
            return
        self.lines += 1
        self.left -= 1
        if self.left <= 0:
            if len(self.trace) < 400:
                self.trace.append('%d@%s:%d' % (
                    self.me.id, code.co_name, line))
            self.switch()

    def body(self, i, f):
        self.gates[i].acquire()
        self.me.id = i
        try:
            f()
        finally:
            self.me.id = None
            self.alive.discard(i)
            if self.alive:
                self.current = self.next_thread()
                self.draw()
                self.gates[self.current].release()
            else:
                self.ended.release()

    def run(self, fs):
        self.gates = [threading.Semaphore(0) for _ in fs]
        self.alive = set(range(len(fs)))
        ts = [threading.Thread(target=self.body, args=(i, f), daemon=True)
              for i, f in enumerate(fs)]
        CoopLock.scheduler = self
        try:
            with Lines(self.on_line):
                for t in ts:
                    t.start()
                self.current = self.next_thread()
                self.draw()
                self.gates[self.current].release()
                self.ended.acquire()
                for t in ts:
                    t.join()
        finally:
            CoopLock.scheduler = None


_real_lock, _real_rlock = threading.Lock, threading.RLock


class CoopLock:
    """Stands for the locks that the code under test may make: a thread that
    has to wait for one hands over instead of blocking the simulation"""
    scheduler = None
    real = staticmethod(_real_lock)

    def __init__(self):
        self.lock = self.real()

    def acquire(self, blocking=True, timeout=-1):
        s = CoopLock.scheduler
        if s is None or getattr(s.me, 'id', None) is None or not blocking:
            return self.lock.acquire(blocking, timeout)
        for _ in range(100000):
            if self.lock.acquire(False):
                return True
            if len(s.alive) < 2:
                break
            s.switch(other=True)
        raise RuntimeError('deadlock')

    def release(self):
        self.lock.release()

    def locked(self):
        return self.lock.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, name):
        return getattr(self.lock, name)


class CoopRLock(CoopLock):
    real = staticmethod(_real_rlock)


def make_lock(*a):
    f = sys._getframe(1).f_code.co_filename
    return CoopLock() if f.startswith(SRC) else _real_lock()


def make_rlock(*a):
    f = sys._getframe(1).f_code.co_filename
    return CoopRLock() if f.startswith(SRC) else _real_rlock()


def install():
    threading.Lock = make_lock
    threading.RLock = make_rlock
