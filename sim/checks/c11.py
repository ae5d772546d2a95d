"""C11: published results come only from complete calculations."""
import array
import json
import re

from sim import compare, core, env, inject, ops, world
from sim.base import BaseCheck

import ghedt as dt

TOL = 1e-9
LINES = re.compile(r"^(Max HP entering temp|Min HP entering temp|Excess fluid temperature).*$", re.M)


def lists(ghe):
    return {"HPEFT": tuple(float(x) for x in ghe.HPEFT), "dTb": tuple(float(x) for x in ghe.dTb)}


def bits(v):
    return array.array("d", v).tobytes()


def printed(ghe):
    try:
        return [m.group(0) for m in LINES.finditer(repr(ghe))]
    except Exception:
        return None


def same(a, b):
    return not compare.close(list(a), list(b), TOL, 1e-9)


class Observer:
    """A reader that looks at the exchanger at every executed source line."""

    def __init__(self, ghe, stride=1):
        self.ghe, self.stride = ghe, stride
        self.cur = lists(ghe)
        self.objs, self.lens = (None, None), (0, 0)
        self.prevH = self.nowH = ghe.bhe.b.H
        self.seen = []            # (name, new value, height at that time)
        self.lib_obj = ghe.GFunction
        self.libs = []
        self.n = 0
        self.broken = None

    def __call__(self, code, line):
        self.n += 1
        if self.n % self.stride:
            return
        g = self.ghe
        self.prevH, self.nowH = self.nowH, g.bhe.b.H
        a, b = getattr(g, "HPEFT", None), getattr(g, "dTb", None)
        if a is self.objs[0] and b is self.objs[1] and g.GFunction is self.lib_obj and \
                (len(a), len(b)) == self.lens and self.n % (29 * self.stride):
            return               # same lists, same length: compare the contents at every 29th look
        self.look(code.co_qualname, line)

    def look(self, where="", line=0):
        self.objs = (getattr(self.ghe, "HPEFT", None), getattr(self.ghe, "dTb", None))
        try:
            self.lens = (len(self.objs[0]), len(self.objs[1]))
            now = lists(self.ghe)
        except Exception as e:
            self.broken = self.broken or "reading the published lists at %s:%s raised %s" % (where, line,
                                                                                           type(e).__name__)
            return
        for k in now:
            if bits(now[k]) != bits(self.cur[k]):
                self.seen.append((k, now[k], (float(self.prevH), float(self.ghe.bhe.b.H)), "%s line %s" % (where, line)))
                self.cur[k] = now[k]
        g = self.ghe.GFunction
        if g is not self.lib_obj or self.n % (29 * 60 * self.stride) == 0:
            self.lib_obj = g
            try:
                x = ops.lib_numbers(g)
            except Exception as e:
                x = "raised " + type(e).__name__
            if not self.libs or self.libs[-1][0] != x:
                self.libs.append((x, "%s line %s" % (where, line)))


class Check(BaseCheck):
    quick_runs = 240
    thorough_runs = 15000
    quick_wall = 200
    rule = ("One run = a seeded history of 2-6 operations on an exchanger (simulations by either or an invalid method, "
            "sizings, g-function recomputations, height changes), or constructions, in most of which a fault strikes at "
            "a seeded call site or source line, while a simulated reader looks at the published lists and the library "
            "at every executed source line. Every value seen must be that of a complete calculation computed in an "
            "undisturbed fork. Non-trivial: a fault struck or the reader looked during an operation.")
    state_note = "distinct (operation, exchanger kind, place struck) reached"
    real = ["ghedt.ground_heat_exchangers", "ghedt.gfunction", "ghedt.peak_load_analysis_tool", "pygfunction pipes"]
    stubs = ["long-time g-function solver (stand-in)", "the concurrent reader (line callback)"]
    assumptions = ["a reader sees the exchanger at source-line boundaries; the two lists may be replaced one after the other"]
    shrink_keys = ["ops"]

    def generate(self, rng, i, tier):
        spec = world.draw_spec(rng)
        spec["inp"]["months"] = rng.choice([12, 12, 24])
        inp = spec["inp"]
        if rng.random() < 0.12:
            return {"what": "build", "spec": spec, "ops": [self.fault(rng, {"op": "build"}, 1.0) for _ in range(2)]}
        seq = []
        for _ in range(rng.randint(2, 5)):
            r = rng.random()
            if r < 0.2:
                op = {"op": "setH", "H": inp["H"] if spec["curves"] == 1 else
                      round(rng.uniform(inp["minH"], inp["maxH"]), 3)}
            elif r < 0.58:
                op = {"op": "simulate", "method": "hybrid"}
            elif r < 0.63:
                op = {"op": "simulate", "method": "hourly"}
            elif r < 0.68:
                op = {"op": "simulate", "method": "daily"}
            elif r < 0.82 and spec["curves"] > 1:
                op = {"op": "size", "method": "hybrid"}
            else:
                op = {"op": "gfun"}
            if op["op"] != "setH":
                op = self.fault(rng, op, 0.7)
            seq.append(op)
        if rng.random() < 0.6:
            seq.insert(0, {"op": "simulate", "method": "hybrid"})
        return {"what": "ghe", "spec": spec, "ops": seq}

    def fault(self, rng, op, p):
        if rng.random() < p:
            if rng.random() < 0.5:
                op["line"] = round(rng.random(), 6)
                if rng.random() < 0.25:        # late in the operation
                    op["line"] = round(1 - 10 ** rng.uniform(-5, -1), 6)
            else:
                op["call"] = inject.draw(rng)
        return op

    def execute(self, c, ctx):
        spec = c["spec"]
        if c["what"] == "build":
            return self.do_build(c, ctx)
        try:
            ghe, o, lib = world.build(spec)
        except ValueError as e:
            raise core.Skip("inputs not accepted: %s" % str(e)[:60])
        kind = spec["inp"]["bhe"]
        months = spec["inp"]["months"]
        for k, op in enumerate(c["ops"]):
            if op["op"] == "setH":
                ops.apply(ghe, op)
                continue
            stride = 211 if op.get("method") == "hourly" else 13 if op["op"] == "size" else 1
            fn = lambda: ops.apply(ghe, op)
            d = core.in_fork(lambda: self.dry(ghe, op, fn, stride))
            if op["op"] == "simulate" or op["op"] == "size":
                want_n = int(months / 12.0 * 8760) if op["method"] == "hourly" else len(ghe.hybrid_load.hour) - 2
            else:
                want_n = None
            old, old_lib, old_print = lists(ghe), ops.lib_numbers(ghe.GFunction), printed(ghe)
            obs = Observer(ghe, stride)
            struck = None
            lw = inject.LineWatch(callback=obs)
            cw = None
            if "line" in op and d["lines"]:
                lw.at = int(op["line"] * d["lines"]) % d["lines"]
            elif "call" in op:
                p = ops.watch_from(*d["sites"]).choose(op["call"])
                cw = inject.CallWatch(p) if p else None
            try:
                with lw:
                    if cw:
                        with cw:
                            r = ["ok", fn()]
                    else:
                        r = ["ok", fn()]
            except BaseException as e:
                r = ["raised", type(e).__name__]
                del e
            obs.look("after the operation")
            struck = lw.struck or (cw and cw.struck)
            if struck:
                ctx.fault("line:KeyboardInterrupt" if lw.struck else "call:" + struck[2])
                ctx.state((op["op"], op.get("method"), kind, struck[:3]))
            else:
                ctx.state((op["op"], op.get("method"), kind, r))
            ctx.stat("reader_looks", obs.n // stride)
            ctx.nontrivial = True
            ctx.sim_time += obs.n
            name = "%s %s (operation %d, %s, fault %s)" % (op["op"], op.get("method", ""), k + 1, kind, struck)
            ctx.note(name, "->", r[0])
            if obs.broken:
                return ctx.fail("partial-results", "%s: %s" % (name, obs.broken))
            # what became visible
            for key, v, H, where in obs.seen:
                if want_n is None:
                    return ctx.fail("results-touched", "%s changed the published %s" % (name, key))
                if len(v) != want_n:
                    return ctx.fail("partial-results", "%s: at %s the published %s had %d of %d values"
                                    % (name, where, key, len(v), want_n))
            now = lists(ghe)
            if op["op"] == "simulate":
                for key, v, H, where in obs.seen:
                    if d["out"][0] != "ok" or not same(v, d["pub"][key]):
                        return ctx.fail("partial-results", "%s: at %s the published %s was neither the previous nor the "
                                        "complete new one" % (name, where, key))
            elif op["op"] == "size" and obs.seen:
                pick = [obs.seen[0], obs.seen[-1]]
                truth = core.in_fork(lambda: self.truth(ghe, sorted({h for x in pick for h in x[2]})))
                for key, v, H, where in pick:
                    t = [truth[h] for h in H]
                    if all(x is not None and not same(v, x[key]) for x in t):
                        return ctx.fail("partial-results", "%s: the %s published at %s is not that of a complete "
                                        "simulation at height %s" % (name, key, where, " or ".join(map(repr, H))))
            if r[0] == "ok":
                for key in now:
                    if want_n is not None and len(now[key]) != want_n:
                        return ctx.fail("wrong-count", "%s returned with %d %s values for %d time steps"
                                        % (name, len(now[key]), key, want_n))
            elif r[0] == "raised" and not obs.seen:
                if any(bits(now[x]) != bits(old[x]) for x in now):
                    return ctx.fail("results-touched", "%s failed and changed the published lists" % name)
                p = printed(ghe)
                if p is not None and old_print is not None and p != old_print:
                    return ctx.fail("print-touched", "%s failed and changed what is printed: %s -> %s" % (name, old_print, p))
            # the library
            new_lib = d["lib"]
            for x, where in obs.libs + [(ops.lib_numbers(ghe.GFunction), "end")]:
                if compare.close(old_lib, x, 0, 0) and (op["op"] != "gfun" or d["out"][0] != "ok"
                                                        or compare.close(new_lib, x, TOL)):
                    return ctx.fail("partial-library", "%s: at %s the library in force was neither the previous nor the "
                                    "complete new one (%s)" % (name, where, compare.close(old_lib, x, 0, 0)))
            if op["op"] == "gfun" and r[0] == "raised":
                a = ops.outcome(lambda: ops.apply(ghe, {"op": "grab"}))
                if a[0] == "ok" and d["grab_old"][0] == "ok" and compare.close(a, d["grab_old"], TOL) \
                        and compare.close(a, d["grab_new"], TOL):
                    return ctx.fail("partial-library", "%s failed and changed the g-function in force" % name)

    def dry(self, ghe, op, fn, stride):
        out = {"grab_old": ops.outcome(lambda: ops.apply(ghe, {"op": "grab"}))}
        if "line" in op:
            out["out"], out["lines"] = ops.dry_lines(fn)
        elif "call" in op:
            r = ops.dry(fn)
            out["out"], out["sites"] = r[0], r[1:]
        else:
            out["out"] = ops.outcome(fn)
        out["pub"], out["lib"] = lists(ghe), ops.lib_numbers(ghe.GFunction)
        out["grab_new"] = ops.outcome(lambda: ops.apply(ghe, {"op": "grab"}))
        return out

    def truth(self, ghe, heights):
        out = {}
        for H in heights:
            ghe.bhe.b.H = H
            try:
                ghe.simulate(method="hybrid")
                out[H] = lists(ghe)
            except Exception:
                out[H] = None
        return out

    def do_build(self, c, ctx):
        spec = c["spec"]
        o = world.make_inputs(spec["inp"], world.load_scale(spec["field"], spec["per_bore"]))
        lib = world.make_library(spec["inp"], o, spec["field"], spec["curves"])
        fn = lambda: world.make_ghe(spec["inp"], o, spec["field"], lib)

        def numbers(g):
            try:
                return {"pub": ops.published(g), "bhe": ops.bhe_numbers(g.bhe), "eq": ops.eq_numbers(g.bhe_eq),
                        "load": compare.plain([g.hybrid_load.load, g.hybrid_load.hour]), "repr": compare.scrub(repr(g))}
            except Exception as e:
                return "unusable: %s" % type(e).__name__

        def dry(op):
            if "line" in op:
                out, n = ops.dry_lines(fn)
                return [out[0], numbers(out[1]) if out[0] == "ok" else out[1]], n
            out, s, num, cal = ops.dry(fn)
            return [out[0], numbers(out[1]) if out[0] == "ok" else out[1]], (s, num, cal)
        for op in c["ops"]:
            want, x = core.in_fork(lambda: dry(op))
            if "line" in op:
                w = inject.LineWatch(int(op["line"] * x) % max(x, 1))
            else:
                p = ops.watch_from(*x).choose(op["call"])
                if not p:
                    continue
                w = inject.CallWatch(p)
            g = None
            try:
                with w:
                    g = fn()
            except BaseException as e:
                del e
            if w.struck:
                ctx.fault("line:KeyboardInterrupt" if "line" in op else "call:" + w.struck[2])
                ctx.state(("build", spec["inp"]["bhe"], w.struck[:3]))
            if g is not None:
                dd = compare.close(want, ["ok", numbers(g)], TOL)
                if dd:
                    return ctx.fail("half-built", "a construction hit by %s returned an object that differs from a "
                                    "complete one: %s" % (w.struck, dd))
            ctx.sim_time += 1

    def shrink(self, c):
        yield from core.shrink_lists(c, self.shrink_keys)
        for j, op in enumerate(c["ops"]):
            for k in ("line", "call"):
                if k in op and c["what"] == "ghe":
                    d = json.loads(json.dumps(c))
                    d["ops"][j].pop(k)
                    yield d
