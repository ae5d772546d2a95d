"""C09: a field search ends soundly whatever its evaluations do."""
import contextlib
import hashlib
import io
import json
import math
import sys

from sim import compare, core, env, inject, ops, sched, surrogate, world
from sim.base import BaseCheck

import ghedt as dt

TOL = 1e-6
EXCS = ["KeyboardInterrupt", "MemoryError", "SimFault", "RuntimeError", "LinAlgError", "FloatingPointError",
        "ValueError", "OSError"]


class NoEnd(BaseException):
    pass


class Profile:
    """Seeded excess profile over the candidates; optionally one evaluation fails."""

    def __init__(self, p, fail=None):
        self.p, self.fail, self.n, self.struck = p, fail, 0, None

    def __call__(self, bores):
        n = self.n
        self.n += 1
        if self.fail is not None and n == self.fail[0]:
            self.struck = self.fail
            raise inject.EXC[self.fail[1]]()
        if not self.p["amp"]:
            return 1.0
        h = hashlib.sha256((str(self.p["seed"]) + surrogate.field_key(bores)).encode()).digest()
        u = int.from_bytes(h[:6], "big") / 2.0**48
        f = 1.0 + self.p["amp"] * (2 * u - 1)
        if self.p.get("wave"):
            f *= 1.0 + self.p["wave"] * math.sin(bores[0].H / 7.0)
        return f


class Endless:
    """Raises when the search code itself runs on and on (counts its source lines)."""
    TOOL = 5

    def __init__(self, limit):
        self.left = limit
        self.codes = [co for co in sched.codes()
                      if co.co_filename.endswith(("search_routines.py", "design.py"))]

    def _line(self, code, line):
        self.left -= 1
        if self.left <= 0:
            raise NoEnd()

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "ghedt-sim-end")
        mon.register_callback(self.TOOL, mon.events.LINE, self._line)
        for co in self.codes:
            mon.set_local_events(self.TOOL, co, mon.events.LINE)

    def __exit__(self, *a):
        mon = sys.monitoring
        for co in self.codes:
            mon.set_local_events(self.TOOL, co, 0)
        mon.register_callback(self.TOOL, mon.events.LINE, None)
        mon.free_tool_id(self.TOOL)
        return False


def domain_of(rows):
    out = []
    for row in rows:
        f = world.rect(*row[:3])
        if len(row) > 3 and row[3] and len(f) > 2:      # same size and corners, other locations between
            f = [f[0]] + [(x + 0.05 * row[3], y) for x, y in f[1:-1]] + [f[-1]]
        out.append(f)
    return out


class Setup:
    """the caller's side of a search"""

    def __init__(self, c):
        self.c = c
        self.o = world.make_inputs(c["inp"], 2600.0 * c["nbh"])
        self.V = c["V"]
        if c["what"] == "design":
            o = dict(self.o, V=self.V, geo=world.make_constraints(c))
            self.design = world.make_design(c, o, method=c["method"])
            d = self.design
            self.nested = getattr(d, "coordinates_domain_nested", None) or [d.coordinates_domain]
        else:
            self.nested = [domain_of(r) for r in c["domains"]]
        self.obj = None

    def args(self):
        o = self.o
        return (self.V, o["borehole"], o["bhe_object"], o["fluid"], o["pipe"], o["grout"], o["soil"],
                o["sim_params"], o["loads"])

    def search(self, disp=False):
        c = self.c
        kw = dict(method=c["method"], flow=c["flow"], disp=disp)
        S = dt.search_routines
        if c["what"] == "design":
            return self.design.find_design(disp=disp)
        if c["what"] == "split":           # set up without searching, then search (perhaps again)
            if self.obj is None:
                self.obj = S.Bisection1D(self.nested[0], *self.args(), search=False, **kw)
            self.obj.selection_key, self.obj.selected_coordinates = self.obj.search()
            return self.obj
        if c["what"] == "one":
            return S.Bisection1D(self.nested[0], *self.args(), **kw)
        return {"two": S.Bisection2D, "zoned": S.BisectionZD}[c["what"]](self.nested, *self.args(), **kw)


def kind_of(c):
    if c["what"] == "design":
        return {"bi-rectangle": "two", "bi-zoned": "zoned"}.get(c["routine"], "one")
    return {"split": "one"}.get(c["what"], c["what"])


def limit(c, nested):
    """number of field evaluations a search may need"""
    lg = lambda n: math.ceil(math.log2(max(n, 2)))
    k = kind_of(c)
    inner = max(len(d) for d in nested)
    one = 8 + 2 * lg(inner)
    if k == "one":
        return one
    outer = 8 + 2 * lg(len(nested) + 1)
    if k == "two":
        return outer + one
    return outer + 8 * (one + 3) + 8


def outcome_of(b):
    nested = getattr(b, "calculated_temperatures_nested", None)
    if isinstance(nested, dict):            # successive searches: one record per list
        known = [(v, b.coordinates_domain_nested[i][k]) for i in sorted(nested) for k, v in sorted(nested[i].items())]
    else:
        known = [(v, b.coordinates_domain[k]) for k, v in sorted(b.calculated_temperatures.items())]
    known = [[float(v), compare.plain(f)] for v, f in known]
    return {"known": known, "key": compare.plain(b.selection_key), "sel": compare.plain(b.selected_coordinates),
            "T": sorted([int(k), float(v)] for k, v in b.calculated_temperatures.items()),
            "H": float(b.ghe.bhe.b.H), "nbh": float(b.ghe.nbh), "ghe": compare.plain(b.ghe.GFunction.bore_locations),
            "V": float(b.ghe.V_flow_system), "m": float(b.ghe.bhe.m_flow_borehole), "B": float(b.ghe.B_spacing)}


def observe(c, s, disp=False):
    """one search, bounded; -> (result, evaluations, text)"""
    lim = limit(c, s.nested)
    env.G["calls"], env.G["budget"] = 0, lim
    text = io.StringIO()
    try:
        with contextlib.redirect_stdout(text), contextlib.redirect_stderr(io.StringIO()), Endless(400000):
            try:
                r = ["ok", outcome_of(s.search(disp))]
            except surrogate.EvaluationBudget:
                r = ["endless", "more than %d field evaluations for %d candidates" % (lim, sum(map(len, s.nested)))]
            except NoEnd:
                r = ["endless", "the search code ran on without end after %d field evaluations" % env.G["calls"]]
            except Exception as e:
                r = ["raised", type(e).__name__]
    finally:
        env.G["budget"] = None
    return r, env.G["calls"], len(text.getvalue())


# -- twins, run in a pristine process ------------------------------------------------
def twin_search(c, disp):
    env.G["perturb"] = Profile(c["profile"])
    return observe(c, Setup(c), disp)


def dry_calls(c):
    env.G["perturb"] = Profile(c["profile"])
    s = Setup(c)
    return ops.dry(lambda: s.search())[1:]


def excess_of(c, coords, H):
    """excess temperature of a field, from an exchanger of its own"""
    hi, lo = extremes_of(c, coords, H)
    return float(max(hi - c["inp"]["maxE"], c["inp"]["minE"] - lo))


def moved(c):
    """the same case with limits that leave one candidate an excess temperature of eps"""
    n = c["near"]
    dom = [x for d in Setup(c).nested for x in d]
    try:
        if "first" in n:            # ... or that the first candidate alone brackets
            a, lo = extremes_of(c, dom[0], c["inp"]["maxH"])
            b, lo2 = extremes_of(c, dom[0], c["inp"]["minH"])
            return dict(c, inp=dict(c["inp"], maxE=a + n["first"] * (b - a), minE=min(lo, lo2) - 1.0))
        hi, lo = extremes_of(c, dom[int(n["at"] * (len(dom) - 1))], c["inp"]["maxH"])
    except ValueError:
        return c
    return dict(c, inp=dict(c["inp"], maxE=hi - n["eps"], minE=min(c["inp"]["minE"], lo - 0.7)))


def extremes_of(c, coords, H):
    env.G["perturb"] = Profile(c["profile"])
    o = world.make_inputs(c["inp"], 2600.0 * c["nbh"])
    o["borehole"].H = H
    n = len(coords)
    o["V"] = c["V"] if c["flow"] == "borehole" else c["V"] / n
    B = dt.utilities.borehole_spacing(o["borehole"], coords)
    field = {"B": B}
    lib = world.make_library(c["inp"], o, field, 1, coords)
    ghe = world.make_ghe(c["inp"], o, field, lib)
    ghe.simulate(method=c["method"])
    return float(max(ghe.HPEFT)), float(min(ghe.HPEFT))


def sized(c, coords):
    env.G["perturb"] = Profile(c["profile"])
    o = world.make_inputs(c["inp"], 2600.0 * c["nbh"])
    o["borehole"].H = c["inp"]["maxH"]
    o["V"] = c["V"] if c["flow"] == "borehole" else c["V"] / len(coords)
    field = {"B": dt.utilities.borehole_spacing(o["borehole"], coords)}
    ghe = world.make_ghe(c["inp"], o, field, world.make_library(c["inp"], o, field, 3, coords))
    ghe.size(method="hybrid")
    return float(ghe.bhe.b.H)


def boot_memo():
    world.memo_short_time_steps()
    world.memo_peak_simulations()


def attempt(fn):
    try:
        return fn()
    except Exception as e:
        return "%s: %s" % (type(e).__name__, str(e)[:80])


def reference(c):
    """everything that is independent of the faulted runs, in one pristine process"""
    env.G["perturb"] = Profile(c["profile"])
    s = Setup(c)
    inp = c["inp"]
    r, calls, _ = observe(c, s)
    out = {"r": r, "calls": calls}
    if r[0] == "ok" and r[1]["sel"]:
        coords = [tuple(x) for x in r[1]["sel"]]
        out["e"] = attempt(lambda: excess_of(c, coords, inp["maxH"]))
        dom = [x for d in s.nested for x in d]
        low = attempt(lambda: excess_of(c, s.nested[0][0], inp["minH"]))
        if c["method"] == "hybrid" and len(dom) <= 60 and not isinstance(low, str) and low < 0:
            out["all"] = attempt(lambda: [low] + [excess_of(c, x, inp["maxH"]) for x in dom])
        if c["method"] == "hybrid" and c["profile"]["seed"] % 5 < 2:
            out["known"] = [[v, len(x), attempt(lambda: excess_of(c, [tuple(p) for p in x], inp["maxH"]))]
                            for v, x in r[1]["known"]]
        if c["method"] == "hybrid" and (kind_of(c) == "zoned" or c["profile"]["seed"] % 3 == 0):
            out["sized"] = attempt(lambda: sized(c, coords))
            out["then"] = r[1]["H"] if kind_of(c) == "zoned" else attempt(lambda: size_after(c))
    else:
        dom = s.nested[0]
        out["ends"] = attempt(lambda: [excess_of(c, dom[0], inp["minH"]), excess_of(c, dom[0], inp["maxH"]),
                                       excess_of(c, dom[-1], inp["maxH"])])
    if c["disp"]:
        out["disp"] = list(twin_search(c, True))
    if any("at" not in f for f in c["faults"]):
        out["dry"] = dry_calls(c)
    return out


class Check(BaseCheck):
    quick_runs = 140
    thorough_runs = 15000
    quick_wall = 230
    rule = ("One run = one search (1-D, nested 2-D, successive zoned, or through Design; 1 to 60 candidates per list) "
            "over a seeded excess profile, in most runs non-monotone over the candidates, undisturbed in a pristine "
            "process, then with one failing evaluation or one failure or interrupt at a call inside the search, then "
            "repeated on the same objects, plus a run with progress output. Oracles: the excess of the selected field "
            "recomputed from an exchanger built independently, an evaluation budget, endpoint excesses.")
    state_note = "distinct (search kind, candidate evaluation outcome, fault position) reached"
    real = ["ghedt.search_routines, design, domains, ground_heat_exchangers, hybrid loads, resistances"]
    stubs = ["long-time g-function solver (stand-in with a seeded factor per field)",
             "short-time-step solution memoised by the numbers of the exchanger"]
    assumptions = ["excess temperatures are never exactly zero", "a failing evaluation raises (it does not return NaN)"]

    def generate(self, rng, i, tier):
        what = "design" if i % 4 == 3 else rng.choice(["one", "one", "one", "split", "two", "zoned"])
        inp = world.draw_inputs(rng, kind=rng.choice(["single", "single", "coaxial", "double"]))
        inp["months"] = 12
        c = {"what": what, "inp": inp, "flow": rng.choice(["borehole", "borehole", "system"]), "method": "hybrid"}
        if what == "design":
            d = world.draw_design(rng, routine=world.ROUTINES[i // 4 % 4])     # every kind with either flow
            c["flow"] = ["system", "borehole"][i // 16 % 2]
            c["routine"], c["geo"] = d["routine"], d["geo"]
            lo, hi = 2, 24
        else:
            def row(n):
                nx = max(1, int(math.sqrt(n)))
                return [nx, max(1, round(n / nx)), 0]
            B = rng.choice([4.0, 5.0, 6.5])
            long = what in ("one", "split") and rng.random() < 0.25
            twins = rng.random() < 0.25
            lists = 1 if what in ("one", "split") else rng.choice([1, 2, 3, 4, 6, 9])
            c["domains"] = []
            for j in range(lists):
                n = rng.choice([1, 2, 3, 4, 5, 8, 13, 21, 34] if lists == 1 else [1, 2, 3, 5, 8, 12])
                rows, seen = [], set()
                top = rng.choice([6, 12, 30, 48])
                start = 1 if rng.random() < 0.6 else rng.randint(1, 6)
                for k in range(n):
                    r = row(start + (top - start) * k / max(n - 1, 1))
                    r[2] = B + 0.1 * j
                    if tuple(r) not in seen:
                        seen.add(tuple(r))
                        rows.append(r)
                if twins and rows:
                    rows = [r + [v] for r in rows for v in range(rng.choice([1, 2, 3]))]
                if long:            # hundreds of candidates with few boreholes each
                    N = rng.choice([90, 200, 400, 700])
                    rows = [[1, 1 + 5 * k // N, round(4.0 + 6.0 * k / N, 6)] for k in range(N)]
                    rows = [[1 if b < 4 else 2, b if b < 4 else b // 2, B] for _, b, B in rows]
                c["domains"].append(rows)
            flat = [r[0] * r[1] for rows in c["domains"] for r in rows]
            lo, hi = min(flat), max(flat)
        r = rng.random()
        c["nbh"] = round(rng.uniform(lo, hi), 2) if r < 0.86 else round(hi * 1.6, 2) if r < 0.93 else round(lo * 0.15, 3)
        c["V"] = inp["V"] if c["flow"] == "borehole" else round(inp["V"] * max(c["nbh"], 1.0), 3)
        c["profile"] = {"seed": rng.randint(0, 10**6), "amp": rng.choice([0.0, 0.1, 0.25, 0.25, 0.4]),
                        "wave": rng.choice([0, 0, 0.02])}
        many = c.get("domains") and len(c["domains"][0]) > 80
        if many:
            c["profile"]["amp"] = rng.choice([0.0, 0.0, 0.0, 0.02, 0.2])
        if rng.random() < 0.3 or many:
            # move the limits so that this candidate's excess is close to zero
            c["near"] = {"at": round(rng.choice([rng.random(), rng.random(), 0.97, 0.93, 0.03]), 4),
                         "eps": rng.choice([1, 1, -1]) * rng.choice([1e-6, 1e-5, 1e-4, 1e-3, 3e-3, 8e-3, 0.03, 0.2])}
        if rng.random() < (0.2 if what == "two" else 0.05):
            c["near"] = {"first": round(rng.uniform(0.05, 0.95), 3)}
        if rng.random() < 0.02 and what in ("one", "split"):
            c["method"] = "hourly"
            c.pop("near", None)
            c["domains"] = [c["domains"][0][:3]]
        c["faults"] = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            if rng.random() < 0.6:
                c["faults"].append({"at": round(rng.random(), 6), "exc": rng.choice(EXCS)})
            else:
                c["faults"].append(inject.draw(rng))
        c["disp"] = rng.random() < 0.3
        return c

    def execute(self, c, ctx):
        boot_memo()
        world.warm(lambda: twin_search(c, False))
        with core.Zygote() as z:
            self.go(c, ctx, z)

    def go(self, c, ctx, z):
        try:
            s = Setup(c)
            if c.get("near"):
                c = z.call(moved, c)
                s = Setup(c)
        except ValueError as e:
            raise core.Skip("design not accepted: %s" % str(e)[:50])
        ref = z.call(reference, c)
        r, calls = ref["r"], ref["calls"]
        ctx.note(c["what"], "candidates", [len(x) for x in s.nested], "->", r[0], r[1] if r[0] != "ok" else
                 (r[1]["key"], len(r[1]["sel"]), r[1]["H"]), "evaluations", calls)
        ctx.stat("outcome_" + r[0])
        ctx.stat("evaluations", calls)
        if r[0] == "endless":
            return ctx.fail("endless", "%s search: %s" % (c["what"], r[1]))
        if r[0] == "ok":
            if self.unsound(c, ctx, ref, s, r[1]):
                return
        elif self.gave_up(c, ctx, ref, s, r):
            return
        if c["disp"]:
            d, n, shown = ref["disp"]
            ctx.stat("progress_text", int(shown > 0))
            diff = compare.close(r, d, TOL, 1e-9)
            if diff:
                return ctx.fail("disp-changes", "with progress output the search ends differently (%s)" % diff)
        # faults, then a repetition on the same objects
        marks = []
        for f in c["faults"]:
            prof = Profile(c["profile"])
            if "at" in f:
                if not calls:
                    continue
                prof.fail = (int(f["at"] * calls) % calls, f["exc"])
                w = contextlib.nullcontext()
            else:
                plan = ops.watch_from(*ref["dry"]).choose(f)
                if not plan:
                    continue
                w = inject.CallWatch(plan)
            env.G["perturb"] = prof
            struck = None
            try:
                with w:
                    got = self.quiet(c, s)
            except BaseException as e:
                got = ["raised", type(e).__name__]
                del e
            struck = prof.struck or getattr(w, "struck", None)
            if not struck:
                ctx.note("fault did not strike", f)
                continue
            exc = struck[1] if prof.struck else struck[2]
            ctx.fault(("evaluation:" if prof.struck else "call:") + exc)
            ctx.note("fault", struck, "->", got[0])
            marks.append(repr(struck))
            where = ("evaluation %d raised %s" % (struck[0] + 1, exc)) if prof.struck else \
                ("%s instead of the call to %s in %s" % (exc, struck[3], struck[0][1]))
            if got[0] == "ok":
                diff = compare.close(r, got, TOL, 1e-9)
                if prof.struck or diff:
                    return ctx.fail("failure-hidden", "the search returned a field of %d boreholes although %s (%s)"
                                    % (len(got[1]["sel"]), where, diff or "the same as undisturbed"))
            elif got[0] == "endless":
                return ctx.fail("endless", "after a failure the search runs on: " + got[1])
            env.G["perturb"] = Profile(c["profile"])
            again, _, _ = observe(c, s)
            diff = compare.close(r, again, TOL, 1e-9)
            if diff:
                return ctx.fail("retry-differs", "repeating the search after %s ends differently from an undisturbed one "
                                "(%s)" % (where, diff))
        ctx.nontrivial = True
        ctx.sim_time += calls
        ctx.state((c["what"], c.get("routine"), [len(x) for x in s.nested], r[0],
                   r[1]["T"] if r[0] == "ok" else r[1], marks))

    def quiet(self, c, s):
        env.G["calls"], env.G["budget"] = 0, 3 * limit(c, s.nested)
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                b = s.search()
        except surrogate.EvaluationBudget:
            return ["endless", "more than %d field evaluations" % env.G["budget"]]
        finally:
            env.G["budget"] = None
        return ["ok", outcome_of(b)]

    def unsound(self, c, ctx, ref, s, b):
        inp = c["inp"]

        def bad(kind, msg):
            ctx.fail(kind, "%s search over %s candidates: %s" % (c["what"], [len(x) for x in s.nested], msg))
            return True
        sel = b["sel"]
        if sel is None or not any(compare.plain(x) == sel for d in s.nested for x in d):
            return bad("no-candidate", "the selected field is none of the candidates")
        if kind_of(c) == "one" and compare.plain(s.nested[0][b["key"]]) != sel:
            return bad("no-candidate", "the selection key names another field than the one selected")
        if isinstance(ref.get("all"), list) and max(ref["all"]) < 0:
            return bad("not-bracketed", "a field was returned although every candidate satisfies the limits, the first even "
                       "at the least height (excess %r to %r)" % (min(ref["all"]), max(ref["all"])))
        rec = dict(map(tuple, b["T"])).get(b["key"])
        coords = [tuple(x) for x in sel]
        e = ref["e"]
        if isinstance(e, str):
            raise core.Skip("the selected field cannot be evaluated alone: " + e)
        ctx.note("excess of the selected field", rec, "re-evaluated", e)
        if not e <= 0.0:
            return bad("not-satisfied", "the selected field of %d boreholes has an excess temperature of %r at the "
                       "greatest height (recorded: %r)" % (len(sel), e, rec))
        if rec is None or abs(rec - e) > 1e-6:
            return bad("wrong-record", "recorded excess %r, re-evaluated %r" % (rec, e))
        for v, n, e in ref.get("known", []):
            if not isinstance(e, str) and not abs(v - e) <= 1e-6:
                return bad("wrong-record", "the excess recorded for a candidate of %d boreholes is %r, re-evaluated %r"
                           % (n, v, e))
        if sorted(map(tuple, b["ghe"])) != sorted(coords) or b["nbh"] != len(sel):
            return bad("other-exchanger", "the exchanger handed back has %d boreholes (%d locations), selected are %d"
                       % (b["nbh"], len(b["ghe"]), len(sel)))
        V = c["V"] * len(sel) if c["flow"] == "borehole" else c["V"]
        if abs(b["V"] - V) > 1e-9 * V:
            return bad("other-exchanger", "the exchanger has a system flow of %r, the selected field needs %r" % (b["V"], V))
        if not (inp["minH"] - 1e-9 <= b["H"] <= inp["maxH"] + 1e-9):
            return bad("height-range", "the height handed back is %r, allowed are %r to %r" % (b["H"], inp["minH"], inp["maxH"]))
        if "sized" in ref:
            H, h = ref["sized"], ref["then"]
            if isinstance(H, str) or isinstance(h, str):
                if H != h:
                    return bad("other-height", "sizing the exchanger handed back: %s, sizing the selected field: %s" % (h, H))
            elif abs(H - h) > 1e-3:
                return bad("other-height", "sizing the exchanger handed back gives %r, sizing the selected field %r" % (h, H))
        return False

    def gave_up(self, c, ctx, ref, s, r):
        """a search without faults raised: were its candidates bracketed?"""
        dom, ends = s.nested[0], ref["ends"]
        if isinstance(ends, str):
            return False
        low, first, last = ends
        ctx.note("ends", ends, r[1])
        if (kind_of(c) == "one" and first > 0 > last) or (low > 0 > first):
            ctx.fail("gave-up", "the search over %d candidates raised %s although the candidates bracket a solution "
                     "(excess %r at the first field's least height, %r and %r at the ends)"
                     % (len(dom), r[1], low, first, last))
            return True
        return False

    def shrink(self, c):
        yield from core.shrink_lists(c, ["faults"])
        if c["disp"]:
            yield dict(c, disp=False)
        if c.get("near"):
            yield dict(c, near=None)
        if c.get("domains"):
            for j, rows in enumerate(c["domains"]):
                if len(c["domains"]) > 1:
                    yield dict(c, domains=c["domains"][:j] + c["domains"][j + 1:])
                for k in range(len(rows)):
                    if len(rows) > 1:
                        d = json.loads(json.dumps(c))
                        d["domains"][j].pop(k)
                        yield d
        if c["profile"]["wave"]:
            yield dict(c, profile=dict(c["profile"], wave=0))
        if c["profile"]["amp"]:
            yield dict(c, profile=dict(c["profile"], amp=0.0))


def size_after(c):
    env.G["perturb"] = Profile(c["profile"])
    with contextlib.redirect_stdout(io.StringIO()):
        b = Setup(c).search()
    b.ghe.compute_g_functions()
    b.ghe.size(method="hybrid")
    return float(b.ghe.bhe.b.H)
