"""Cooperative scheduler: real threads, one running at a time.

A thread keeps the baton until it reaches a scheduling point (a file operation
or, when enabled, a source line of ghedt) at which the seeded policy decides
whether another runnable thread continues.  Nothing else can interleave them.
"""
import random
import sys
import threading

_tls = threading.local()
_RealLock = threading.Lock
_RealRLock = threading.RLock
_Thread = threading.Thread


class Deadlock(Exception):
    pass


class Stop(BaseException):
    """Ends a simulated thread (step budget exhausted)."""


class Task:
    def __init__(self, idx, name, fn, data):
        self.idx, self.name, self.fn, self.data = idx, name, fn, data
        self.sem = threading.Semaphore(0)
        self.done = False
        self.result = None
        self.error = None
        self.blocked = None


class Scheduler:
    """policy: {"kind": "random", "p": float} | {"kind": "points", "at": [frac..], "total": n}
    | {"kind": "serial"}; order choices come from the rng."""

    def __init__(self, seed, policy, max_points=3_000_000):
        self.rng = random.Random(seed)
        self.policy = policy
        self.tasks = []
        self.points = 0
        self.switches = 0
        self.max_points = max_points
        self.trace = []              # (point number, from, to)
        self.exhausted = False
        self.on_point = None
        self.kinds = policy.get("kinds")      # which point kinds count
        if policy["kind"] == "points":
            tot = max(1, policy.get("total", 1))
            self.at = set(int(f * tot) for f in policy["at"])
        else:
            self.at = set()
        self.forced = policy.get("trace")     # replay of explicit switches
        if self.forced is not None:
            self.forced = {int(n): to for n, _, to in self.forced}

    def add(self, name, fn, data=None):
        t = Task(len(self.tasks), name, fn, data)
        self.tasks.append(t)
        return t

    def _body(self, t):
        t.sem.acquire()
        _tls.sched, _tls.task = self, t
        try:
            t.result = t.fn()
        except BaseException as e:       # recorded, judged by the check
            t.error = e
        t.done = True
        _tls.sched = None
        nxt = self._pick(exclude=None)
        if nxt is None:
            self._main.release()
        else:
            self.cur = nxt
            nxt.sem.release()

    def _runnable(self):
        return [t for t in self.tasks if not t.done and (t.blocked is None or not t.blocked.locked_for(t))]

    def _pick(self, exclude):
        r = [t for t in self._runnable() if t is not exclude]
        if not r:
            return None
        return r[self.rng.randrange(len(r))]

    def run(self):
        self._main = threading.Semaphore(0)
        ths = []
        for t in self.tasks:
            th = _Thread(target=self._body, args=(t,), daemon=True)
            th.start()
            ths.append(th)
        first = self._pick(None)
        if first is None:
            return
        self.cur = first
        first.sem.release()
        self._main.acquire()
        for th in ths:
            th.join(10)

    def point(self, kind):
        t = _tls.task
        if self.kinds is not None and kind not in self.kinds:
            return
        self.points += 1
        if self.points > self.max_points:
            self.exhausted = True
            raise Stop()
        if self.on_point is not None:
            self.on_point(t)
        k = self.policy["kind"]
        n = self.points
        if self.forced is not None:
            to = self.forced.get(n)
            if to is None or self.tasks[to].done:
                return
            nxt = self.tasks[to]
        else:
            if k == "serial":
                return
            if k == "random":
                if self.rng.random() >= self.policy["p"]:
                    return
            elif k == "points":
                if n not in self.at:
                    return
            nxt = self._pick(exclude=t)
            if nxt is None:
                return
        self._switch(t, nxt)

    def _switch(self, t, nxt):
        if nxt is t:
            return
        self.switches += 1
        self.trace.append((self.points, t.idx, nxt.idx))
        self.cur = nxt
        nxt.sem.release()
        t.sem.acquire()

    def block(self, lock):
        """The running task waits for a simulated lock."""
        t = _tls.task
        t.blocked = lock
        while lock.locked_for(t):
            nxt = self._pick(exclude=t)
            if nxt is None:
                t.blocked = None
                raise Deadlock("all simulated threads wait for locks")
            self._switch(t, nxt)
        t.blocked = None


def current():
    return getattr(_tls, "sched", None)


def current_data():
    s = getattr(_tls, "sched", None)
    return _tls.task.data if s is not None else None


def point(kind):
    s = getattr(_tls, "sched", None)
    if s is not None:
        s.point(kind)


class SimLock:
    """Stands in for locks created by ghedt, so waiting is a scheduling point."""

    def __init__(self, reentrant):
        self._re = reentrant
        self._owner = None
        self._n = 0
        self._real = _RealRLock() if reentrant else _RealLock()

    def locked_for(self, task):
        return self._owner is not None and not (self._re and self._owner is task)

    def acquire(self, blocking=True, timeout=-1):
        s = current()
        if s is None:
            return self._real.acquire(blocking, timeout)
        t = _tls.task
        s.point("lock")
        if self.locked_for(t):
            if not blocking:
                return False
            s.block(self)
        self._owner = t
        self._n += 1
        return True

    def release(self):
        s = current()
        if s is None:
            if self._owner is None:
                return self._real.release()
        self._n -= 1
        if self._n <= 0:
            self._n = 0
            self._owner = None
        if s is not None:
            s.point("lock")

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


def install():
    def lock():
        if sys._getframe(1).f_globals.get("__name__", "").startswith("ghedt"):
            return SimLock(False)
        return _RealLock()

    def rlock():
        if sys._getframe(1).f_globals.get("__name__", "").startswith("ghedt"):
            return SimLock(True)
        return _RealRLock()
    threading.Lock = lock
    threading.RLock = rlock


# -- line points in ghedt code ------------------------------------------------
TOOL_LINES = 4
_lines_on = False


def _codes(pkg="ghedt"):
    """every code object of the package"""
    import types
    seen, out = set(), []

    def add(co):
        if id(co) in seen:
            return
        seen.add(id(co))
        out.append(co)
        for c in co.co_consts:
            if isinstance(c, types.CodeType):
                add(c)
    for name, mod in sorted(sys.modules.items()):
        if name != pkg and not name.startswith(pkg + "."):
            continue
        if mod is None:
            continue
        todo = list(vars(mod).values())
        while todo:
            v = todo.pop()
            if isinstance(v, (staticmethod, classmethod)):
                v = v.__func__
            if isinstance(v, property):
                todo += [f for f in (v.fget, v.fset, v.fdel) if f]
                continue
            w = getattr(v, "__wrapped__", None)
            if isinstance(w, types.FunctionType):
                todo.append(w)
            if isinstance(v, types.FunctionType):
                if (v.__module__ or "").startswith(pkg):
                    add(v.__code__)
            elif isinstance(v, type) and (v.__module__ or "").startswith(pkg) and v not in seen:
                seen.add(v)
                todo += list(vars(v).values())
    return out


_code_cache = None


def codes():
    global _code_cache
    if _code_cache is None:
        _code_cache = _codes()
    return _code_cache


def lines_on(callback=None):
    """Make every ghedt source line a scheduling point (or call callback)."""
    global _lines_on
    mon = sys.monitoring
    if not _lines_on:
        mon.use_tool_id(TOOL_LINES, "ghedt-sim-lines")
        _lines_on = True
    if callback is None:
        def callback(code, line):
            s = getattr(_tls, "sched", None)
            if s is not None:
                s.point("line")
    mon.register_callback(TOOL_LINES, mon.events.LINE, callback)
    for co in codes():
        mon.set_local_events(TOOL_LINES, co, mon.events.LINE)


def lines_off():
    global _lines_on
    if not _lines_on:
        return
    mon = sys.monitoring
    for co in codes():
        mon.set_local_events(TOOL_LINES, co, 0)
    mon.register_callback(TOOL_LINES, mon.events.LINE, None)
    mon.free_tool_id(TOOL_LINES)
    _lines_on = False
