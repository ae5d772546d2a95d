"""Faults at call sites of ghedt code.

Every call made by ghedt code is a numbered step (site, occurrence).  A dry run
lists them; a fault raises at one of them, before the call takes place or after
it has returned ("after": its effect is there, its result is lost).
"""
import dis
import sys

import numpy as np

from . import sched

TOOL = 3


class SimFault(Exception):
    """A failure of a dependency, of no class that code could expect."""


NUMERIC = ("numpy", "scipy", "pygfunction", "pandas")

EXC = {
    "KeyboardInterrupt": lambda: KeyboardInterrupt("simulated interrupt"),
    "MemoryError": lambda: MemoryError("simulated"),
    "SimFault": lambda: SimFault("simulated"),
    "RuntimeError": lambda: RuntimeError("simulated"),
    "LinAlgError": lambda: np.linalg.LinAlgError("simulated"),
    "FloatingPointError": lambda: FloatingPointError("simulated"),
    "ValueError": lambda: ValueError("simulated numerical failure"),
    "OSError": lambda: OSError(5, "simulated"),
}
ANYWHERE = ["KeyboardInterrupt", "MemoryError"]
NUMERIC_ONLY = ["SimFault", "RuntimeError", "LinAlgError", "FloatingPointError", "ValueError"]


def _modname(c):
    m = getattr(c, "__module__", None)
    if m is None:
        s = getattr(c, "__self__", None)
        if s is not None:
            m = getattr(type(s), "__module__", None)
    return m if isinstance(m, str) else ""


def _name(c):
    return getattr(c, "__qualname__", None) or getattr(c, "__name__", None) or type(c).__name__


def strike_offset(code, offset):
    """offset of the instruction at which the call at `offset` is struck.

    CPython 3.12 mishandles exceptions raised by CALL callbacks (keyword names are kept
    and applied to the next call, CALL_FUNCTION_EX crashes), so faults are raised by the
    callback of the instruction itself, or of the KW_NAMES before it."""
    prev = None
    for i in dis.get_instructions(code):
        if i.offset == offset:
            return prev.offset if prev is not None and prev.opname == "KW_NAMES" else offset
        prev = i
    return None


_ranges = {}
_known = set()


def guards(code):
    """offsets [(start, end)] of `code` from which an exception reaches a handler or a `with`"""
    r = _ranges.get(code)
    if r is None:
        r = []
        first = {i.offset: i.opname for i in dis.get_instructions(code)}
        for e in dis._parse_exception_table(code):
            if first.get(e.target) == "PUSH_EXC_INFO":
                r.append((e.start, e.end))
        _ranges[code] = r
    return r


def guarded_at(code, offset):
    return any(a <= offset < b for a, b in guards(code))


def guarded_stack(code, offset, frame):
    """is this place, or that of a caller in ghedt, inside such a range"""
    if guarded_at(code, offset):
        return True
    if not _known:
        _known.update(sched.codes())
    f, n = frame, 0
    while f is not None and n < 40:
        if f.f_code in _known and f.f_code is not code and guarded_at(f.f_code, f.f_lasti):
            return True
        f, n = f.f_back, n + 1
    return False


class Sites(set):
    """call sites of numerical libraries; .guarded: sites under an exception handler"""


class Lines(int):
    """number of lines executed; .guarded: positions of those under an exception handler"""


def pick_line(frac, n):
    g = getattr(n, "guarded", None)
    if g and int(frac * 1e6) % 5 < 2:
        return g[int(frac * len(g)) % len(g)]
    return int(frac * n) % max(n, 1)


class _Missing:
    pass


MISSING = getattr(sys.monitoring, "MISSING", _Missing)


class CallWatch:
    """Counts call sites (plan None) or raises at one of them.

    plan: {"site": key, "occ": n, "exc": name} where key = (qualname, offset)
    """

    def __init__(self, plan=None):
        self.sites = {}          # key -> count
        self.numeric = Sites()
        self.numeric.guarded = set()
        self.callee = {}
        self.plan = plan
        self.struck = None
        self.total = 0

    def _call(self, code, offset, func, arg0):
        key = (code.co_filename.rsplit("/", 1)[-1], code.co_qualname, offset)
        n = self.sites.get(key, 0)
        self.sites[key] = n + 1
        self.total += 1
        if n == 0:
            m = _modname(func)
            if m.split(".")[0] in NUMERIC:
                self.numeric.add(key)
            self.callee[key] = _name(func)
            if guarded_stack(code, offset, sys._getframe(1)):
                self.numeric.guarded.add(key)

    def _instr(self, code, offset):
        if offset != self._at or self.struck is not None:
            return
        p = self.plan
        key = p["site"]
        if (code.co_filename.rsplit("/", 1)[-1], code.co_qualname) != tuple(key[:2]):
            return
        n = self._at_n
        self._at_n += 1
        if n == p["occ"]:
            self.struck = (key, n, p["exc"], p.get("callee", "?"))
            raise EXC[p["exc"]]()

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(TOOL, "ghedt-sim-calls")
        mon.register_callback(TOOL, mon.events.CALL, self._call)
        mon.register_callback(TOOL, mon.events.INSTRUCTION, self._instr)
        self._at, self._at_n = None, 0
        for co in sched.codes():
            ev = mon.events.CALL if self.plan is None else 0
            if self.plan is not None and \
                    (co.co_filename.rsplit("/", 1)[-1], co.co_qualname) == tuple(self.plan["site"][:2]):
                k = strike_offset(co, self.plan["site"][2])
                if k is not None:
                    self._at = k
                    ev = mon.events.INSTRUCTION
            mon.set_local_events(TOOL, co, ev)
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        for co in sched.codes():
            mon.set_local_events(TOOL, co, 0)
        mon.register_callback(TOOL, mon.events.CALL, None)
        mon.register_callback(TOOL, mon.events.INSTRUCTION, None)
        mon.free_tool_id(TOOL)
        return False

    def choose(self, sel):
        """Resolve a seeded selection {site, occ, mode, exc} in [0,1) to a plan."""
        # (a failure raised in place of the closing call itself cannot be survived by any program)
        keys = sorted((k for k in self.sites if self.callee.get(k, "").split(".")[-1] not in ("__exit__", "close")),
                      key=lambda k: (k[0], k[1], k[2]))
        if not keys:
            return None
        near = [k for k in keys if k in getattr(self.numeric, "guarded", ())]
        pool = sel.get("pool", "any")
        if pool == "guarded" and near:
            keys = near
        elif pool != "any":
            keys = [k for k in keys if k in self.numeric] or keys
        key = keys[int(sel["site"] * len(keys)) % len(keys)]
        n = self.sites[key]
        m = sel["mode"]
        occ = 0 if m == "first" else n - 1 if m == "last" else int(sel["occ"] * n) % n
        names = ANYWHERE + (NUMERIC_ONLY if key in self.numeric else [])
        exc = names[int(sel["exc"] * len(names)) % len(names)]
        return {"site": key, "occ": occ, "exc": exc, "callee": self.callee.get(key, "?")}

    def describe(self, plan):
        k = plan["site"]
        return "%s at call %d to %s in %s (%s)" % (
            plan["exc"], plan["occ"] + 1, self.callee.get(k, "?"), k[1], k[0])


def draw(rng):
    return {"site": round(rng.random(), 6), "occ": round(rng.random(), 6),
            "mode": rng.choice(["first", "last", "any", "any"]), "exc": round(rng.random(), 6),
            "pool": rng.choice(["any", "any", "numeric", "guarded", "guarded"])}


class LineWatch:
    """Counts executed source lines of ghedt, or interrupts at one of them.

    Also a preemption source: with a callback given, it is called at each line.
    """

    def __init__(self, at=None, exc="KeyboardInterrupt", callback=None):
        self.n, self.at, self.exc, self.struck, self.cb = 0, at, exc, None, callback
        self.spots = [] if at is None and callback is None else None
        self.cache = {}

    def inside(self, code, line):
        r = self.cache.get((code, line))
        if r is None:
            r = self.cache[code, line] = bool(guards(code)) and any(
                ln == line and guarded_at(code, a) for a, _, ln in code.co_lines())
        return r

    def count(self):
        n = Lines(self.n)
        n.guarded = self.spots or []
        return n

    def _line(self, code, line):
        self.n += 1
        if self.spots is not None and len(self.spots) < 4000 and self.inside(code, line):
            self.spots.append(self.n - 1)
        if self.at is not None and self.n - 1 == self.at and self.struck is None:
            self.struck = (code.co_filename.rsplit("/", 1)[-1], code.co_qualname, line)
            raise EXC[self.exc]()
        if self.cb is not None:
            self.cb(code, line)

    def __enter__(self):
        sched.lines_on(self._line)
        return self

    def __exit__(self, *a):
        sched.lines_off()
        return False
