"""C06: a faulted calculation fails loudly and can be retried."""
import json

import numpy as np

from sim import compare, core, env, inject, ops, world
from sim.base import BaseCheck

import ghedt as dt
import ghedt.peak_load_analysis_tool as plat

TOL = 1e-9


def rest_of(ghe):
    out = {"bhe": ops.bhe_numbers(ghe.bhe), "eq": ops.eq_numbers(ghe.bhe_eq), "pub": ops.published(ghe),
           "H": float(ghe.bhe.b.H), "lib": ops.lib_numbers(ghe.GFunction)}
    out["grab"] = ops.outcome(lambda: ops.apply(ghe, {"op": "grab"}))
    return out


def load_numbers(h):
    r = {}
    for side in ("rejection", "extraction"):
        x = getattr(h, side)
        r[side] = compare.plain([x.monthly_total, x.monthly_peak, x.monthly_average, x.monthly_peak_day,
                                 x.monthly_peak_duration, x.monthly_two_day_hourly_peak,
                                 x.monthly_two_day_fluid_temps_pk, x.monthly_two_day_fluid_temps_nm])
    r["seq"] = compare.plain([h.load, h.hour, h.sfload])
    r["repr"] = compare.scrub(repr(h))
    return r


class Subject:
    """objects, the operation on them, and what can be read afterwards"""

    def __init__(self, fn, after=lambda: None, inputs=None, read=None):
        self.fn, self.after, self.inputs, self.read = fn, after, inputs, read or (lambda r: r)

    def read_out(self, r):
        """plain answer of an outcome (reading happens outside any fault)"""
        return ["ok", self.read(r[1])] if r[0] == "ok" else r


def subject(c):
    what = c["what"]
    op = c["op"]
    if what in ("ghe", "build"):
        spec = c["spec"]
        o = world.make_inputs(spec["inp"], world.load_scale(spec["field"], spec["per_bore"]))
        lib = world.make_library(spec["inp"], o, spec["field"], spec["curves"])
        if what == "build":
            return Subject(lambda: world.make_ghe(spec["inp"], o, spec["field"], lib), lambda: None, [o["borehole"], o["pipe"], o["grout"], o["soil"], o["sim_params"],
                                              o["loads"], ops.lib_numbers(lib)],
                           lambda g: dict(rest_of(g), loads=load_numbers(g.hybrid_load), repr=compare.scrub(repr(g))))
        try:
            ghe = world.make_ghe(spec["inp"], o, spec["field"], lib)
        except ValueError as e:
            raise core.Skip("inputs not accepted: %s" % str(e)[:60])
        for p in c["pre"]:
            ops.outcome(lambda: ops.apply(ghe, p))
        return Subject(lambda: ops.apply(ghe, op), lambda: rest_of(ghe))
    if what == "bhe":
        inp = c["inp"]
        o = world.make_inputs_no_loads(inp)
        if op["op"] == "ctor":
            return Subject(lambda: world.make_bhe(inp, o), read=ops.bhe_numbers)
        b = world.make_bhe(inp, o)
        for p in c["pre"]:
            b.b.H = p
            b.update_thermal_resistance()
        if op["op"] == "equiv":
            return Subject(lambda: plat.equivalance.compute_equivalent(b),
                           lambda: None if inp["bhe"] == "single" else ops.bhe_numbers(b), read=ops.eq_numbers)
        if op["op"] == "update":
            kw = {"m_flow_borehole": op["m"]} if op["m"] else {}
            if op["fluid"]:
                kw["fluid"] = ops.fluid_of(op["fluid"])
            if op["via"] == "Rb" and kw:
                return Subject(lambda: float(b.compute_effective_borehole_resistance(**kw)),
                               lambda: ops.bhe_numbers(b))
            return Subject(lambda: float(b.update_thermal_resistance(**kw)), lambda: ops.bhe_numbers(b))
        if op["op"] == "repr":
            return Subject(lambda: compare.scrub(repr(b)), lambda: ops.bhe_numbers(b))
    if what == "loads":
        inp = c["inp"]
        o = world.make_inputs(inp, 3000.0)
        e = plat.equivalance.compute_equivalent(world.make_bhe(inp, o))
        rn = plat.radial_numerical_borehole.RadialNumericalBH(e)
        if op["op"] == "sts":
            def read(a):
                return [compare.plain(list(a[0])), compare.plain(list(a[1])), compare.plain(rn.lntts),
                        compare.plain(rn.g), float(rn.t_s)]
            return Subject(lambda: rn.calc_sts_g_functions(e), read=read, after=lambda: [ops.eq_numbers(e), compare.plain(rn.g_sts(rn.lntts[2:9]))])
        rn.calc_sts_g_functions(e)
        H = plat.ground_loads.HybridLoad

        def make():
            r, x = H.split_heat_and_cool(o["loads"])
            return H(r, x, e, rn, o["sim_params"])
        if op["op"] == "hybrid":
            return Subject(make, lambda: [ops.eq_numbers(e), o["loads"][:50]], read=load_numbers)
        try:
            h = make()
        except ValueError as x:
            raise core.Skip("inputs not accepted: %s" % str(x)[:60])
        if op["op"] == "frame":
            return Subject(lambda: h.create_dataframe_of_peak_analysis().to_string(), lambda: load_numbers(h))
        if op["op"] == "hourlyrep":
            return Subject(lambda: compare.plain(h.hourly_load_representation()), lambda: load_numbers(h))
        if op["op"] == "repr":
            return Subject(lambda: compare.scrub(repr(h)), lambda: load_numbers(h))
    if what == "lib":
        spec = c["spec"]
        o = world.make_inputs_no_loads(spec["inp"])
        coords = world.field_coords(spec["field"])
        if op["op"] == "query":
            lib = world.make_library(spec["inp"], o, spec["field"], spec["curves"], coords)

            def query():
                r = lib.g_function_interpolation(lib.B / op["H"], kind=op["kind"])
                out = [compare.plain(list(r[0]))] + [None if x is None else float(x) for x in r[1:]]
                if op["rb"]:
                    out.append(compare.plain(lib.borehole_radius_correction(r[0], r[1], op["rb"])))
                return out
            return Subject(query, lambda: ops.lib_numbers(lib))
        return Subject(lambda: world.make_library(spec["inp"], o, spec["field"], spec["curves"], coords),
                       lambda: compare.plain(coords), read=ops.lib_numbers, inputs=[o["borehole"], o["pipe"], o["grout"], o["soil"], coords])
    if what == "design":
        d = c["design"]
        o = world.design_inputs(d)

        def fn():
            x = world.make_design(d, o)
            return compare.plain(getattr(x, "coordinates_domain", None) or x.coordinates_domain_nested)
        return Subject(fn, lambda: None, [o["geo"], o["borehole"], o["sim_params"]])
    raise AssertionError(what)


class Check(BaseCheck):
    quick_runs = 600
    thorough_runs = 30000
    quick_wall = 200
    rule = ("One run = one operation (construction, simulation by either method, sizing, g-function query or "
            "recomputation, report, plot, export, flow update, equivalent, load representation, short-time-step "
            "solution, library, candidate fields) on seeded objects, hit 1-3 times by an exception raised at a "
            "seeded call site (numerical failures only at numerical calls) or source line, then repeated without "
            "fault; any answer must be the one of an undisturbed twin forked just before. Non-trivial: at least "
            "one fault struck.")
    state_note = "distinct (operation, object kind, place struck) triples"
    real = ["all of ghedt's calculations", "pygfunction pipes and media", "scipy", "pandas"]
    stubs = ["long-time g-function solver (stand-in; the real one in about 2% of runs)"]
    assumptions = ["faults arise at calls made by ghedt code and at its source lines, not inside third-party C code; "
                   "a second failure while a file is being closed is not injected"]
    shrink_keys = ["faults", "pre"]

    def generate(self, rng, i, tier):
        r = rng.random()
        if r < 0.46:
            spec = world.draw_spec(rng)
            spec["inp"]["months"] = rng.choice([12, 12, 24])
            inp = spec["inp"]

            def H():
                return inp["H"] if spec["curves"] == 1 else round(rng.uniform(inp["minH"], inp["maxH"]), 2)
            pre = []
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                pre.append(rng.choice([{"op": "simulate", "method": "hybrid"}, {"op": "setH", "H": H()},
                                       {"op": "repr"}, {"op": "gfun"}, {"op": "flow", "m": 0.33, "via": "update"}]))
            r2 = rng.random()
            if r2 < 0.27:
                op = {"op": "simulate", "method": "hybrid", "explicit": rng.random() < 0.5}
            elif r2 < 0.31:
                op = {"op": "simulate", "method": "hourly"}
            elif r2 < 0.44 and spec["curves"] > 1:
                op = {"op": "size", "method": "hybrid"}
            elif r2 < 0.56:
                op = {"op": "gfun"}
            elif r2 < 0.68:
                op = {"op": "repr"}
                pre.append({"op": "simulate", "method": "hybrid"})
            elif r2 < 0.8:
                op = {"op": "export"}
            elif r2 < 0.88:
                op = {"op": "grab", "H": H()}
            elif r2 < 0.95:
                op = {"op": "flow", "m": round(rng.uniform(0.2, 0.6), 3), "fluid": rng.choice([None, "MPG20"]),
                      "via": rng.choice(["update", "Rb"])}
            elif r2 < 0.975:
                op = {"op": rng.choice(["equiv", "frame", "hourlyrep"])}
            else:
                op = ops.draw_plot(rng)
            c = {"what": "ghe", "spec": spec, "pre": pre, "op": op}
            if op["op"] == "gfun" and rng.random() < 0.3 and inp["bhe"] != "double":
                c["real"] = True
        elif r < 0.56:
            c = {"what": "build", "spec": world.draw_spec(rng), "op": {"op": "build"}}
        elif r < 0.72:
            c = {"what": "bhe", "inp": world.draw_inputs(rng), "pre": rng.choice([[], [60.0], [150.0, 70.0]]),
                 "op": rng.choice([{"op": "ctor"}, {"op": "equiv"}, {"op": "equiv"}, {"op": "repr"},
                                   {"op": "update", "m": rng.choice([None, 0.2, 0.55]),
                                    "fluid": rng.choice([None, "MPG20"]), "via": rng.choice(["Rb", "update"])}])}
        elif r < 0.87:
            c = {"what": "loads", "inp": world.draw_inputs(rng),
                 "op": {"op": rng.choice(["sts", "hybrid", "hybrid", "frame", "hourlyrep", "repr"])}}
        elif r < 0.94:
            c = {"what": "lib", "spec": world.draw_spec(rng), "op": {"op": "lib"}}
            if rng.random() < 0.6:
                spec = c["spec"] = world.draw_spec(rng, curves=rng.choice([1, 2, 3, 5, 5]))
                lo, hi = spec["inp"]["minH"], spec["inp"]["maxH"]
                c["op"] = {"op": "query", "H": round(lo + (hi - lo) * rng.uniform(-0.05, 1.05), 2),
                           "kind": rng.choice(["default", "linear", "quadratic", "cubic", "lagrange"]),
                           "rb": rng.choice([0, 0, 0.05, 0.1])}
        else:
            c = {"what": "design", "design": world.draw_design(rng), "op": {"op": "design"}}
        c["faults"] = []
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
            if rng.random() < 0.45:
                c["faults"].append({"line": round(rng.random(), 6), "exc": rng.choice(["KeyboardInterrupt",
                                                                                      "MemoryError"])})
            else:
                c["faults"].append({"call": inject.draw(rng)})
        return c

    def execute(self, c, ctx):
        if c.get("real"):
            env.G["mode"] = "real"
            ctx.stat("real_solver_runs")
        s = subject(c)
        inputs = compare.snap(s.inputs) if s.inputs is not None else None
        opname = "%s.%s" % (c["what"], c["op"]["op"])
        kind = (c.get("spec") or {}).get("inp", c.get("inp") or c.get("design", {}).get("inp"))["bhe"]

        def undisturbed(kindf):
            out, n, sites, num, callee = None, 0, None, None, None
            if kindf == "line":
                out, n = ops.dry_lines(s.fn)
                out = s.read_out(out)
            else:
                out, sites, num, callee = ops.dry(s.fn)
                out = s.read_out(out)
            return out, ops.outcome(s.after), n, sites, num, callee
        want = after = None
        ctx.stat(opname)
        for k, f in enumerate(c["faults"]):
            d = core.in_fork(lambda: undisturbed("line" if "line" in f else "call"))
            if want is None:
                want, after = d[0], d[1]
                if want[0] == "raised":
                    ctx.stat("undisturbed_raises")
            if "line" in f:
                if not d[2]:
                    continue
                w = inject.LineWatch(inject.pick_line(f["line"], d[2]), f["exc"])
            else:
                p = ops.watch_from(d[3], d[4], d[5]).choose(f["call"])
                if not p:
                    continue
                w = inject.CallWatch(p)
            try:
                with w:
                    r = ["ok", s.fn()]
            except BaseException as e:
                r = ["raised", type(e).__name__]
                if w.struck and not isinstance(e, Exception) and type(e) is not KeyboardInterrupt:
                    raise
                del e
            if w.struck:
                ctx.fault("line:" + f["exc"] if "line" in f else "call:" + w.struck[2])
                ctx.note("fault", k + 1, "in", opname, "at", w.struck, "->", r[0])
                ctx.state((opname, kind, w.struck[:3]))
            r = s.read_out(r)
            if r[0] == "ok":
                if want[0] != "ok":
                    ctx.fail("answer-not-undisturbed", "%s (%s) hit by %s returned although the undisturbed call "
                             "raises %s" % (opname, kind, w.struck, want[1]))
                    return
                dd = compare.close(want[1], r[1], TOL) or compare.close(after, ops.outcome(s.after), TOL, path="then")
                if dd:
                    ctx.fail("answer-not-undisturbed", "%s (%s) hit by %s returned a different answer: %s"
                             % (opname, kind, w.struck, dd))
                    return
        if want is None:
            raise core.Skip("nothing to fault")
        r = s.read_out(ops.outcome(s.fn))
        if r[0] != want[0]:
            ctx.fail("retry-differs", "%s (%s) repeated after %s: %s, undisturbed: %s"
                     % (opname, kind, ctx.trace[-3:], r[1] if r[0] == "raised" else "returned",
                        want[1] if want[0] == "raised" else "returned"))
            return
        dd = compare.close(want[1], r[1], TOL) or compare.close(after, ops.outcome(s.after), TOL, path="then")
        if dd:
            ctx.fail("retry-differs", "%s (%s) repeated after %s gives a different answer: %s"
                     % (opname, kind, ctx.trace[-3:], dd))
            return
        if inputs is not None:
            dd = compare.snap_diff(inputs, compare.snap(s.inputs))
            if dd:
                ctx.fail("inputs-changed", "%s (%s) hit by faults changed the caller's inputs: %s" % (opname, kind, dd))
        ctx.sim_time += len(c["faults"]) + 1

    def shrink(self, c):
        yield from core.shrink_lists(c, self.shrink_keys)
        if c.get("real"):
            yield dict(c, real=False)
        for j, f in enumerate(c["faults"]):
            if "call" in f and f["call"]["mode"] != "first":
                d = json.loads(json.dumps(c))
                d["faults"][j]["call"]["mode"] = "first"
                yield d
