"""The clock seam: the functions of the module `time` (and the time stamps of
openpyxl) read a simulated clock while one is installed.  Must be imported
before the code under test so that also `from time import ...` is caught."""
import datetime as _dt
import time as _time

REAL = {k: getattr(_time, k) for k in
        ('time', 'monotonic', 'perf_counter', 'process_time', 'sleep',
         'time_ns', 'monotonic_ns', 'perf_counter_ns', 'process_time_ns',
         'thread_time')}
EPOCH = 1_600_000_000.0
current = None


class SimClock:
    """Simulated time advances by `tick` at each reading (the work done between
    two readings), by stalls (at given readings) and by sleeping.  The wall
    clock additionally jumps at given readings; the monotonic one does not."""

    def __init__(self, tick=0.001, stalls=None, jumps=None, offset=0.0):
        self.now = 1000.0
        self.tick = tick
        self.stalls = {int(k): v for k, v in (stalls or {}).items()}
        self.jumps = {int(k): v for k, v in (jumps or {}).items()}
        self.wall = EPOCH + offset
        self.reads = 0
        self.fired = {'stall': 0, 'jump': 0}
        self.history = []          # (number of the reading, monotonic time)
        self.keep_history = False

    def read(self):
        k = self.reads
        self.reads += 1
        self.now += self.tick
        if k in self.stalls:
            self.now += self.stalls[k]
            self.fired['stall'] += 1
        if k in self.jumps:
            self.wall += self.jumps[k]
            self.fired['jump'] += 1
        if self.keep_history:
            self.history.append(self.now)
        return self.now

    def advance(self, dt):
        self.now += dt

    def monotonic(self):
        return self.read()

    def walltime(self):
        return self.wall + self.read()

    def sleep(self, s):
        self.now += max(0.0, s)


def _mk(name, meth, ns=False):
    real = REAL[name]

    def f(*a):
        c = current
        if c is None:
            return real(*a)
        x = getattr(c, meth)(*a)
        return int(x*1e9) if ns else x
    f.__name__ = name
    return f


def install():
    "once, before importing the code under test"
    for k in ('monotonic', 'perf_counter', 'process_time', 'thread_time'):
        setattr(_time, k, _mk(k, 'monotonic'))
    for k in ('monotonic_ns', 'perf_counter_ns', 'process_time_ns'):
        setattr(_time, k, _mk(k, 'monotonic', True))
    _time.time = _mk('time', 'walltime')
    _time.time_ns = _mk('time_ns', 'walltime', True)
    _time.sleep = _mk('sleep', 'sleep')
    import openpyxl.packaging.core as core
    import openpyxl.workbook.workbook   # noqa: F401  (uses core's now)

    class FixedDatetime(_dt.datetime):
        @classmethod
        def now(cls, tz=None):
            return _dt.datetime(2020, 1, 1, tzinfo=tz)

        @classmethod
        def utcnow(cls):
            return _dt.datetime(2020, 1, 1)

    class FakeModule:
        datetime = FixedDatetime
        timezone = _dt.timezone
        timedelta = _dt.timedelta
    import openpyxl.writer.excel as writer
    for mod in (core, writer):
        if hasattr(mod, 'datetime'):
            mod.datetime = FakeModule


def use(clock):
    global current
    current = clock
