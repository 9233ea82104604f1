"""Seams: the simulated clock, time zone and locks, put in place before the library is imported.

Nothing in /repo is changed.  The library takes `datetime` from the module `datetime` and locks (if it
ever uses any) from `threading`, so replacing those names before the first import puts every clock
reading and every lock operation of the library behind the simulator.
"""
import os
import sys

REPO = os.environ.get("AEROMET_REPO", "/repo")
PKG = os.path.join(REPO, "aeromet_py") + os.sep

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-pycache"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"

import warnings

if not sys.warnoptions:
    warnings.simplefilter("ignore")

import _thread
import datetime as _dtmod
import threading
import time as _timemod

RealDatetime = _dtmod.datetime
RealDate = _dtmod.date
UTC = _dtmod.timezone.utc
EPOCH = RealDatetime(1970, 1, 1)

_real_time = _timemod.time
_real_gmtime = _timemod.gmtime
_real_strftime = _timemod.strftime
_real_monotonic = _timemod.monotonic
_real_sleep = _timemod.sleep


def utc_us(year, month, day, hour=0, minute=0, second=0, us=0):
    d = RealDatetime(year, month, day, hour, minute, second, us) - EPOCH
    return (d.days * 86400 + d.seconds) * 1000000 + d.microseconds


def from_us(us):
    return EPOCH + _dtmod.timedelta(microseconds=us)


class SimClock:
    """The wall clock of the simulated receiver: microseconds since the epoch, UTC, and a zone offset.

    `script` is a list of [reading number, signed microseconds]: right after that many readings the clock
    jumps by that much (a rollover or a step in the middle of a decode)."""

    def __init__(self):
        self.us = utc_us(1987, 3, 14, 1, 59, 26)
        self.tz_min = 0
        self.reads = 0
        self.script = {}
        self.tick_us = 0
        self.log = None

    def set(self, us, tz_min=0, script=(), tick_us=0):
        self.us = us
        self.tz_min = tz_min
        self.script = {}
        for n, d in script:
            self.script[n] = self.script.get(n, 0) + d
        self.tick_us = tick_us
        self.reads = 0
        self.log = []

    def read(self):
        now = self.us
        self.reads += 1
        if self.log is not None:
            self.log.append(now)
        self.us += self.tick_us + self.script.get(self.reads, 0)
        return now

    def advance(self, us):
        self.us += us


CLOCK = SimClock()


def _dt(us):
    d = from_us(us)
    return SimDatetime(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond)


class SimDatetime(RealDatetime):
    @classmethod
    def utcnow(cls):
        if sys.version_info >= (3, 12):
            # as the real one does
            warnings.warn("datetime.datetime.utcnow() is deprecated", DeprecationWarning, stacklevel=2)
        return _dt(CLOCK.read())

    @classmethod
    def now(cls, tz=None):
        us = CLOCK.read()
        if tz is None:
            return _dt(us + CLOCK.tz_min * 60000000)
        return _dt(us).replace(tzinfo=UTC).astimezone(tz)

    @classmethod
    def today(cls):
        return _dt(CLOCK.read() + CLOCK.tz_min * 60000000)

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        us = int(round(t * 1000000))
        if tz is None:
            return _dt(us + CLOCK.tz_min * 60000000)
        return _dt(us).replace(tzinfo=UTC).astimezone(tz)

    def __reduce_ex__(self, protocol):
        return (SimDatetime, (self.year, self.month, self.day, self.hour, self.minute, self.second,
                              self.microsecond, self.tzinfo))


SimDatetime.__name__ = "datetime"
SimDatetime.__qualname__ = "datetime"
SimDatetime.__module__ = "datetime"


class SimDate(RealDate):
    @classmethod
    def today(cls):
        d = from_us(CLOCK.read() + CLOCK.tz_min * 60000000)
        return SimDate(d.year, d.month, d.day)


SimDate.__name__ = "date"
SimDate.__qualname__ = "date"
SimDate.__module__ = "datetime"


def _sim_time():
    return CLOCK.read() / 1e6


def _sim_time_ns():
    return CLOCK.read() * 1000


def _sim_gmtime(t=None):
    return _real_gmtime(CLOCK.read() / 1e6 if t is None else t)


def _sim_localtime(t=None):
    return _real_gmtime((CLOCK.read() / 1e6 if t is None else t) + CLOCK.tz_min * 60)


def _sim_strftime(fmt, t=None):
    return _real_strftime(fmt, _sim_localtime() if t is None else t)


def _sim_ctime(t=None):
    return _timemod.asctime(_sim_localtime(t))


def _sim_clock_gettime(clk):
    if clk == _timemod.CLOCK_REALTIME:
        return CLOCK.read() / 1e6
    return CLOCK.us / 1e6


def _sim_monotonic():
    return CLOCK.us / 1e6


def _sim_sleep(seconds):
    CLOCK.advance(int(seconds * 1e6))


# ---------------------------------------------------------------------------------------------- locks
SCHED = None  # set by sched.py while a scheduled run is in progress
_real_lock = _thread.allocate_lock
_real_rlock = threading.RLock


class SimLock:
    """A lock the library creates: while a scheduled run is on, a thread that would block hands control
    to the scheduler instead of stopping the process."""

    def __init__(self, reentrant=False):
        self._reentrant = reentrant
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self._reentrant and self._owner == me:
            self._count += 1
            return True
        while self._owner is not None:
            if not blocking:
                return False
            if SCHED is None:
                raise RuntimeError("simulator: a lock of the library is held by nobody who can release it")
            SCHED.block_on(self)
            if timeout is not None and timeout >= 0 and self._owner is not None:
                return False
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0

    # for threading.Condition
    def _release_save(self):
        n = self._count
        self._owner = None
        self._count = 0
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self._count = n

    def _is_owned(self):
        return self._owner == threading.get_ident()


def _from_repo():
    """Does the library make this lock, itself or as part of a semaphore, condition, event or barrier?"""
    f = sys._getframe(2)
    while f and f.f_code.co_filename == threading.__file__:
        f = f.f_back
    return bool(f) and f.f_code.co_filename.startswith(PKG)


def _waiter_factory():
    """The locks on which threads wait for a condition."""
    return SimLock() if SCHED is not None and _from_repo() else _real_lock()


def _lock_factory():
    return SimLock() if _from_repo() else _real_lock()


def _rlock_factory():
    return SimLock(True) if _from_repo() else _real_rlock()


LIB = {}


def bootstrap(import_us=None):
    """Install the seams and import the library.  The clock shows `import_us` during the import, far from
    any date used in a run, so that a date taken at import can never be right by accident."""
    if LIB:
        return LIB
    import _strptime  # noqa: F401  (imported lazily by the standard library otherwise)
    import calendar, collections, copy, enum, functools, inspect, itertools, json, logging, math, re, typing, string  # noqa
    _dtmod.datetime = SimDatetime
    _dtmod.date = SimDate
    _timemod.time = _sim_time
    _timemod.time_ns = _sim_time_ns
    _timemod.gmtime = _sim_gmtime
    _timemod.localtime = _sim_localtime
    _timemod.strftime = _sim_strftime
    _timemod.ctime = _sim_ctime
    _timemod.clock_gettime = _sim_clock_gettime
    _timemod.monotonic = _sim_monotonic
    _timemod.perf_counter = _sim_monotonic
    _timemod.sleep = _sim_sleep
    threading.Lock = _lock_factory
    threading.RLock = _rlock_factory
    threading._allocate_lock = _waiter_factory
    if import_us is not None:
        CLOCK.us = import_us
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import importlib

    # In the very import order of a user: `from aeromet_py import Metar, Taf`.
    mod = importlib.import_module("aeromet_py")
    assert os.path.realpath(mod.__file__).startswith(os.path.realpath(PKG)), mod.__file__
    LIB["Metar"] = mod.Metar
    LIB["Taf"] = mod.Taf
    LIB["module"] = mod
    return LIB
