"""C07: g-function answers do not depend on earlier or concurrent queries."""
import copy
import json
import math
import pickle

import numpy as np

from sim import compare, core, inject, ops, sched
from sim.base import BaseCheck

KINDS = ["default", "default", "default", "linear", "quadratic", "cubic", "lagrange"]
LOGT = None


def make_args(lib):
    """constructor arguments of a library (pure function of the description)"""
    import ghedt as dt
    lt = dt.utilities.Eskilson_log_times()
    rng = core.rng_for("lib", lib["seed"])
    g, rb, D = {}, {}, {}
    a, b = rng.uniform(5, 40), rng.uniform(0.3, 1.2)
    for h in lib["heights"]:
        g[h] = [float(a * (1 - math.exp(-(t + 9.0) * b / 6)) * (1 + 8.0 / h) + 0.1 * math.sin(t * h) +
                      math.log(h / 20.0) * (t + 9) * 0.4) for t in lt]
        rb[h] = 0.07 if lib["rb"] == "const" else 0.06 + 0.0001 * h
        if not (lib["D"] == "some" and h == lib["heights"][-1]) and lib["D"] != "none":
            D[h] = 2.0 if lib["D"] == "const" else 1.0 + 0.01 * h
    loc = [[float(i) * lib["B"], float(j) * lib["B"]] for i in range(lib["nx"]) for j in range(lib["ny"])]
    return dict(B=lib["B"], r_b_values=rb, D_values=D, g_lts=g, log_time=lt, bore_locations=loc)


def fresh(lib):
    import ghedt as dt
    if lib["via"] == "file" and lib["D"] not in ("some", "none"):
        a = make_args(lib)
        d = {"g": {"%r_%r_%r_%r" % (a["B"], h, a["r_b_values"][h], a["D_values"][h]): a["g_lts"][h]
                   for h in a["g_lts"]}, "bore_locations": a["bore_locations"], "logtime": a["log_time"]}
        return dt.gfunction.GFunction(**dt.gfunction.GFunction.configure_database_file_for_usage(d))
    return dt.gfunction.GFunction(**make_args(lib))


def ask(g, q):
    """-> plain answer; raises what the library raises"""
    if q["q"] == "interp":
        r = g.g_function_interpolation(g.B / q["h"], kind=q["kind"]) if q["kind"] != "default" or q["explicit"] \
            else g.g_function_interpolation(g.B / q["h"])
        return [compare.plain(list(r[0]))] + [None if x is None else float(x) for x in r[1:]]
    if q["q"] == "radius":
        r = g.g_function_interpolation(g.B / q["h"], kind=q["kind"])
        return compare.plain(g.borehole_radius_correction(r[0], r[1], q["rb"]))
    if q["q"] == "coords":
        return compare.plain(g.correct_coordinates(q["B"]))
    if q["q"] == "plot":
        return ops.drawn((g.visualize_g_functions if q["of"] == "curves" else g.visualize_borefield)()[0])
    raise AssertionError(q)


def answer_alone(lib, q):
    return outcome(lambda: ask(fresh(lib), q))


def outcome(fn):
    try:
        return ["ok", fn()]
    except sched.Stop:
        raise
    except Exception as e:
        return ["raised", type(e).__name__]


def curves_of(g):
    return compare.plain([g.B, g.r_b_values, g.D_values, g.g_lts, g.log_time, g.bore_locations])


class Check(BaseCheck):
    quick_runs = 4000
    thorough_runs = 150000
    quick_wall = 150
    rule = ("One run = one library of 1-6 curves (in 40% of the runs with a second, almost equal library beside it) and a seeded history of 2-14 queries (any ratio, kind, radius "
            "correction, coordinate scaling, plots; some interrupted at a source line or failing inside scipy/numpy, "
            "some after pickling or copying the library), or 2-4 threads querying one library with preemption "
            "at every source line; each answer is compared with the same query on a fresh copy, in some runs in a process that answered nothing before. Non-trivial: "
            "at least one preemption or fault, or two queries.")
    state_note = "distinct (curves, query history classes, faults / thread switch positions) reached"
    real = ["ghedt.gfunction.GFunction", "scipy.interpolate", "numpy"]
    stubs = ["threads run under a baton scheduler"]
    assumptions = ["answers equal within 1e-9 relative"]
    shrink_keys = ["queries"]

    def generate(self, rng, i, tier):
        n = rng.choice([1, 2, 2, 3, 3, 4, 5, 5, 6])
        hs = sorted(rng.sample([24, 48, 60, 80.5, 96, 110, 130, 150, 192, 200, 300], n))
        hs = [float(h) for h in hs]
        if rng.random() < 0.15:
            rng.shuffle(hs)
        lib = {"seed": rng.randint(0, 10**6), "heights": hs, "B": rng.choice([4.0, 5.0, 6.5]), "nx": rng.randint(1, 3),
               "ny": rng.randint(1, 4), "rb": rng.choice(["const", "vary"]),
               "D": rng.choice(["const", "vary", "vary", "some", "none"]), "via": rng.choice(["init", "file"])}
        lo, hi = min(hs), max(hs)
        again = rng.choice([0.0, 0.3, 0.6])        # how often a ratio is asked for again

        asked = []

        def height():
            if asked and rng.random() < again:
                return rng.choice(asked)
            asked.append(new_height())
            return asked[-1]

        def new_height():
            r = rng.random()
            if r < 0.25:
                return rng.choice(hs)
            if r < 0.6:
                return round(lo + (hi - lo) * rng.random(), 3)
            if r < 0.7:
                return rng.choice([lo, hi]) + rng.choice([-1, 1]) * 10 ** rng.uniform(-8, -1)
            if r < 0.85:
                return round(lo * rng.uniform(0.5, 0.99), 3)
            return round(hi * rng.uniform(1.01, 1.6), 3)

        def query():
            r = rng.random()
            if r < 0.75:
                return {"q": "interp", "h": height(), "kind": rng.choice(KINDS), "explicit": rng.random() < 0.3}
            if r < 0.9:
                return {"q": "radius", "h": height(), "kind": rng.choice(KINDS), "rb": rng.choice([0.05, 0.075, 0.1])}
            if r < 0.91 and not c["threads"]:
                return {"q": "plot", "of": rng.choice(["curves", "field"])}
            return {"q": "coords", "B": rng.choice([3.0, 5.0, 8.0])}
        threads = rng.choice([2, 2, 3, 4]) if rng.random() < 0.45 else 0        # (pyplot is not made for threads)
        c = {"lib": lib, "queries": [], "threads": threads, "sched": rng.randint(0, 10**9),
             "pristine": rng.random() < 0.3}
        if rng.random() < 0.4:      # a second library, like the first but for its curves or one other thing
            c["other"] = dict(lib, **rng.choice([{"seed": lib["seed"] + 1}, {"seed": lib["seed"] + 1}, {"B": lib["B"] + 0.5},
                                                 {"nx": lib["nx"] + 1}, {"rb": "vary" if lib["rb"] == "const" else "const"}]))
        for _ in range(rng.randint(2, 14)):
            q = query()
            if "other" in c and rng.random() < 0.4:
                q["o"] = 1
                if c["queries"] and rng.random() < 0.5:         # the same question to both
                    q = dict({k: v for k, v in c["queries"][-1].items() if k in ("q", "h", "kind", "explicit", "rb", "B")},
                             o=1 - c["queries"][-1].get("o", 0))
            r = rng.random()
            if r < 0.12:
                q["line"] = round(rng.random(), 6)
                q["exc"] = rng.choice(["KeyboardInterrupt", "MemoryError"])
            elif r < 0.2:
                q["call"] = inject.draw(rng)
            elif r < 0.25:
                q["before"] = rng.choice(["pickle", "deepcopy"])
            c["queries"].append(q)
        if threads:
            c["threads"] = threads
            c["queries"] = c["queries"][:rng.choice([2, 3, 4, 6])]
            for q in c["queries"]:
                q["t"] = rng.randrange(c["threads"])
                q.pop("before", None)
                q.pop("call", None)
                if rng.random() < 0.7:
                    q.pop("line", None)
            r = rng.random()
            c["policy"] = {"kind": "random", "p": rng.choice([0.01, 0.05, 0.2, 0.5])} if r < 0.5 else \
                {"kind": "points", "at": sorted(round(rng.random(), 5) for _ in range(rng.choice([1, 1, 2, 3])))}
        return c

    def execute(self, c, ctx):
        libs = [c["lib"], c.get("other") or c["lib"]]
        if c.get("pristine"):           # each question in a process that never answered another one
            ctx.stat("pristine_runs")
            with core.Zygote() as z:
                want = [z.call(answer_alone, libs[q.get("o", 0)], q) for q in c["queries"]]
        else:
            want = [answer_alone(libs[q.get("o", 0)], q) for q in c["queries"]]
        live = [fresh(x) for x in libs]
        curves = curves_of(live[0]) + curves_of(live[1])
        if c["threads"]:
            got = self.threaded(c, live, ctx)
        else:
            got = self.sequential(c, live, ctx, want)
        if got is None:
            return
        for k, (q, w, r) in enumerate(zip(c["queries"], want, got)):
            if r is None:
                continue           # interrupted
            d = compare.close(w, r)
            if d:
                ctx.fail("history-dependent", "query %d (%s) answered %s but %s on a fresh copy (%s); before it: %s"
                         % (k + 1, self.show(q), self.brief(r), self.brief(w), d,
                            "; ".join(self.show(x) for x in c["queries"][:k]) if not c["threads"] else
                            "threads " + "; ".join("t%d %s" % (x["t"], self.show(x)) for x in c["queries"])))
                return
        d = compare.close(curves, curves_of(live[0]) + curves_of(live[1]), 0, 0)
        if d:
            ctx.fail("curves-changed", "the stored curves changed: %s after %s" %
                     (d, "; ".join(self.show(x) for x in c["queries"])))

    def show(self, q):
        s = q["q"] + (" H=%r %s" % (q["h"], q["kind"]) if "h" in q else "")
        if "line" in q or "call" in q:
            s += " (faulted)"
        if q.get("o"):
            s += " of a second library"
        return s

    def brief(self, o):
        if o[0] == "raised":
            return o[1]
        return "values"

    def sequential(self, c, both, ctx, want):
        got = []
        marks = []
        for k, q in enumerate(c["queries"]):
            live = both[q.get("o", 0)]
            if q.get("before") == "pickle":
                live2 = pickle.loads(pickle.dumps(live))
                live.__dict__ = live2.__dict__
            elif q.get("before") == "deepcopy":
                live.__dict__ = copy.deepcopy(live).__dict__
            fault = None
            if "line" in q or "call" in q:
                trial = copy.deepcopy(live)
                if "line" in q:
                    w = inject.LineWatch()
                    with w:
                        outcome(lambda: ask(trial, q))
                    if w.n:
                        fault = inject.LineWatch(inject.pick_line(q["line"], w.count()), q["exc"])
                else:
                    w = inject.CallWatch()
                    with w:
                        outcome(lambda: ask(trial, q))
                    p = w.choose(q["call"])
                    if p:
                        fault = inject.CallWatch(p)
            if fault is None:
                got.append(outcome(lambda: ask(live, q)))
                marks.append(self.mark(q))
                continue
            try:
                with fault:
                    r = ["ok", ask(live, q)]
            except BaseException as e:
                r = ["raised", type(e).__name__]
                del e
            if fault.struck:
                ctx.fault("line:" + q["exc"] if "line" in q else "call:" + fault.struck[2])
                ctx.note("query", k + 1, self.show(q), "struck at", fault.struck, "->", r[0])
                # a faulted query that returns must return the true answer
                got.append(r if r[0] == "ok" else None)
            else:
                got.append(r)
            marks.append((self.mark(q), fault.struck and fault.struck[:3]))
        if len(c["queries"]) > 1:
            ctx.nontrivial = True
        ctx.sim_time += len(c["queries"])
        ctx.state((len(c["lib"]["heights"]), c["lib"]["D"], marks))
        return got

    def mark(self, q):
        return (q["q"], q.get("kind"), q.get("h") and round(q["h"], 1), q.get("o", 0))

    def threaded(self, c, live, ctx):
        got = [None] * len(c["queries"])

        def run(g, policy, record):
            s = sched.Scheduler(c["sched"], policy)

            def body(t):
                def f():
                    for k, q in enumerate(c["queries"]):
                        if q["t"] != t:
                            continue
                        me = {"n": 0, "at": None}
                        if record and "line" in q:
                            me["at"] = int(q["line"] * 400)
                        s.tasks[t].data = me
                        try:
                            r = ["ok", ask(g[q.get("o", 0)], q)]
                        except sched.Stop:
                            raise
                        except BaseException as e:
                            r = None if me.get("hit") else ["raised", type(e).__name__]
                        if record:
                            got[k] = r
                            if me.get("hit"):
                                ctx.fault("line:" + q["exc"])
                return f
            for t in range(c["threads"]):
                s.add("t%d" % t, body(t))

            def line(code, ln):
                cur = getattr(sched._tls, "sched", None)
                if cur is None:
                    return
                d = sched._tls.task.data
                if isinstance(d, dict):
                    d["n"] += 1
                    if d["at"] is not None and d["n"] - 1 == d["at"]:
                        d["hit"] = True
                        raise KeyboardInterrupt("simulated interrupt")
                cur.point("line")
            sched.lines_on(line)
            try:
                s.run()
            finally:
                sched.lines_off()
            for t in s.tasks:
                if t.error is not None:
                    raise RuntimeError("thread ended with %r" % (t.error,))
            return s
        dry = run([fresh(c["lib"]), fresh(c.get("other") or c["lib"])], {"kind": "serial"}, False)
        s = run(live, dict(c["policy"], total=dry.points), True)
        if s.switches:
            ctx.nontrivial = True
            ctx.stat("preemptions", s.switches)
        ctx.sim_time += s.points
        ctx.note("switches (line number in execution, from thread, to thread):", s.trace[:40])
        ctx.state((len(c["lib"]["heights"]), [self.mark(q) for q in c["queries"]], s.trace))
        return got

    def shrink(self, c):
        yield from core.shrink_lists(c, self.shrink_keys)
        if c.get("other") and not any(q.get("o") for q in c["queries"]):
            yield dict(c, other=None)
        if len(c["lib"]["heights"]) > 1:
            for j in range(len(c["lib"]["heights"])):
                d = json.loads(json.dumps(c))
                del d["lib"]["heights"][j]
                if d.get("other"):
                    d["other"]["heights"] = d["lib"]["heights"]
                yield d
        for j, q in enumerate(c["queries"]):
            for k in ("line", "call", "before"):
                if k in q:
                    d = json.loads(json.dumps(c))
                    d["queries"][j].pop(k)
                    yield d
        if c["threads"]:
            if c["policy"]["kind"] == "random":
                for a in range(10):
                    yield dict(c, policy={"kind": "points", "at": [round((a + 0.5) / 10, 3)]})
            else:
                for j in range(len(c["policy"]["at"])):
                    at = c["policy"]["at"]
                    yield dict(c, policy={"kind": "points", "at": at[:j] + at[j + 1:]})
