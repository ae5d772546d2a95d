"""Simulated clock.  While active, every reading comes from a seeded script that
may advance, stand still or jump either way."""
import time

_real = {}
_src = None
reads = 0


class Clock:
    def __init__(self, rng, start=1.6e9, jumps=True, fixed=None):
        self.rng, self.now, self.jumps, self.fixed = rng, start, jumps, fixed
        self.reads = 0
        self.travelled = 0.0
        self.njumps = 0

    def tick(self):
        self.reads += 1
        r = self.rng.random()
        if self.jumps and r < 0.2:
            d = self.rng.choice([-1, 1]) * 10 ** self.rng.uniform(0, 8)
            self.njumps += 1
        elif self.fixed is not None:
            d = self.fixed
        else:
            d = 10 ** self.rng.uniform(-6, 2)
        self.now += d
        self.travelled += abs(d)
        return self.now


def set_source(c):
    global _src
    _src = c


def install():
    if _real:
        return
    for n in ("time", "monotonic", "perf_counter", "process_time", "thread_time"):
        _real[n] = getattr(time, n)

        def f(_n=n):
            return _real[_n]() if _src is None else _src.tick()
        f.__name__ = n
        setattr(time, n, f)

        def g(_n=n):
            return int(_real[_n]() * 1e9) if _src is None else int(_src.tick() * 1e9)
        g.__name__ = n + "_ns"
        _real[n + "_ns"] = getattr(time, n + "_ns")
        setattr(time, n + "_ns", g)
    for n in ("localtime", "gmtime", "ctime", "strftime"):
        _real[n] = getattr(time, n)
    _real["sleep"] = time.sleep

    def localtime(secs=None):
        if secs is None and _src is not None:
            secs = abs(_src.tick()) % 4e9
        return _real["localtime"](secs)

    def gmtime(secs=None):
        if secs is None and _src is not None:
            secs = abs(_src.tick()) % 4e9
        return _real["gmtime"](secs)

    def sleep(s):
        if _src is None:
            return _real["sleep"](s)
        _src.now += s
        _src.travelled += abs(s)
    time.localtime, time.gmtime, time.sleep = localtime, gmtime, sleep
    import os
    import timeit
    timeit.default_timer = time.perf_counter
    for n in ("clock_gettime", "clock_gettime_ns"):
        _real[n] = getattr(time, n)
        setattr(time, n, lambda k, _n=n: _real[_n](k) if _src is None else
                _src.tick() if _n == "clock_gettime" else int(_src.tick() * 1e9))
    _real["times"] = os.times

    def times():
        if _src is None:
            return _real["times"]()
        t = _src.tick()
        return type(_real["times"]())((t / 3, t / 7, 0.0, 0.0, t))
    os.times = times
    _install_datetime()
    _install_pandas()


def _install_pandas():
    import pandas as pd
    real = pd.Timestamp.now

    def stamp(tz=None):
        return real(tz) if _src is None else pd.Timestamp(abs(_src.tick()) % 4e9, unit="s", tz=tz)
    for n in ("now", "today", "utcnow"):
        try:
            setattr(pd.Timestamp, n, staticmethod(stamp))
        except (TypeError, AttributeError):
            return


def _install_datetime():
    """datetime.now() and friends (modules imported before keep the real class)"""
    import datetime as mod
    real_dt, real_d = mod.datetime, mod.date

    def stamp():
        return abs(_src.tick()) % 4e9

    class MetaDT(type):
        def __instancecheck__(cls, x):
            return isinstance(x, real_dt)

        def __subclasscheck__(cls, x):
            return issubclass(x, real_dt)

    class MetaD(type):
        def __instancecheck__(cls, x):
            return isinstance(x, real_d)

        def __subclasscheck__(cls, x):
            return issubclass(x, real_d)

    class datetime(real_dt, metaclass=MetaDT):
        def __new__(cls, *a, **k):
            return real_dt(*a, **k)

        @classmethod
        def now(cls, tz=None):
            return real_dt.now(tz) if _src is None else real_dt.fromtimestamp(stamp(), tz)

        @classmethod
        def utcnow(cls):
            return real_dt.utcnow() if _src is None else real_dt.utcfromtimestamp(stamp())

        @classmethod
        def today(cls):
            return real_dt.today() if _src is None else real_dt.fromtimestamp(stamp())

    class date(real_d, metaclass=MetaD):
        def __new__(cls, *a, **k):
            return real_d(*a, **k)

        @classmethod
        def today(cls):
            return real_d.today() if _src is None else real_d.fromtimestamp(stamp())
    for c, r in ((datetime, real_dt), (date, real_d)):
        c.__module__, c.__qualname__ = r.__module__, r.__qualname__
    mod.datetime, mod.date = datetime, date
