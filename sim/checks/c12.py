"""C12: an exchanger answers for its present state, not for its past."""
import json

from sim import compare, core, env, inject, ops, world
from sim.base import BaseCheck

import ghedt.peak_load_analysis_tool as plat

TOL = 1e-8


# -- twins (run in a pristine process) ---------------------------------------------
def twin_ghe(spec, state, op, again):
    """answer of an exchanger built fresh and put directly into `state`"""
    ghe, o, lib = world.build(spec)
    if state["gfun"] is not None:
        g = state["gfun"]
        ops.alter(o, ghe.bhe, g[2])
        if g[:2] != [state["m0"], spec["inp"]["fluid"]]:
            ghe.bhe.update_thermal_resistance(m_flow_borehole=g[0], fluid=ops.fluid_of(g[1]))
        ghe.compute_g_functions()
    now = [state["m"], state["fluid"]]
    cur = (state["gfun"] or [state["m0"], spec["inp"]["fluid"]])[:2]
    ops.alter(o, ghe.bhe, state["chg"])
    if now != cur:
        ghe.bhe.update_thermal_resistance(m_flow_borehole=now[0], fluid=ops.fluid_of(now[1]))
    ghe.bhe.b.H = state["H"]
    out = ops.outcome(lambda: ops.apply(ghe, op))
    rest = ops.outcome(lambda: compare_results(ghe)) if again and out[0] == "ok" else None
    return out, rest


def rebuilt(spec, m, fluid, H, lib, hybrid):
    """an exchanger constructed with another flow, fluid and height; the load representation is the first one's"""
    o = world.make_inputs(spec["inp"], world.load_scale(spec["field"], spec.get("per_bore", 2600.0)))
    o["fluid"] = ops.fluid_of(fluid)
    o["borehole"].H = H
    o["V"] = m * 1000.0 / o["fluid"].rho
    ghe = world.make_ghe(spec["inp"], o, spec["field"], lib)
    ghe.hybrid_load = hybrid
    return ghe


def twin_rebuilt(spec, state, op):
    """answer of an exchanger whose constructor was given the present flow, fluid and height"""
    ghe, _, lib = world.build(spec)
    hybrid = ghe.hybrid_load
    try:
        if state["gfun"] is not None:
            g = rebuilt(spec, state["gfun"][0], state["gfun"][1], spec["inp"]["H"], lib, hybrid)
            g.compute_g_functions()
            lib = g.GFunction
        ghe = rebuilt(spec, state["m"], state["fluid"], state["H"], lib, hybrid)
    except ValueError as e:  # no load representation for this flow and height (see the known findings of C04)
        return ["unavailable", str(e)]
    return ops.outcome(lambda: ops.apply(ghe, op))


def compare_results(ghe):
    r = compare.results_of(ghe)
    r["bhe"] = ops.bhe_numbers(ghe.bhe)
    r["eq"] = ops.eq_numbers(ghe.bhe_eq)
    return r


def fresh_bhe(inp, st):
    import pygfunction as gt
    o = world.make_inputs_no_loads(inp)
    b = o["borehole"]
    b.H = st["H"]
    o["grout"].k = st["kg"]
    if st["kp"] is not None:
        o["pipe"].k = st["kp"]
    if st.get("eps") is not None:
        o["pipe"].eps = st["eps"]
    for name, factor in st.get("chg", {}).items():
        part, _, prop = name.partition(".")
        if part in o and prop:
            setattr(o[part], prop, getattr(o[part], prop) * factor)
    return world.make_bhe(inp, o, m_flow=st["m"], fluid=ops.fluid_of(st["fluid"]))


def twin_bhe(inp, st, op):
    b = fresh_bhe(inp, st)
    return bhe_answer(b, op)


def bhe_answer(b, op):
    if op["op"] == "equiv":
        return ops.outcome(lambda: ops.eq_numbers(plat.equivalance.compute_equivalent(b)))
    return ops.outcome(lambda: ops.bhe_numbers(b))


def alter_eq(e, first, changes):
    """change an equivalent exchanger in place"""
    ops.alter({"soil": e.soil, "grout": e.grout, "pipe": e.pipe, "_first": first}, e, changes)
    e.update_thermal_resistance()


def twin_radial(inps, j, final, changes):
    e = plat.equivalance.compute_equivalent(world.make_bhe(inps[j]))
    if changes:
        alter_eq(e, {}, changes)
    rn = plat.radial_numerical_borehole.RadialNumericalBH(e)
    return ops.outcome(lambda: radial_answer(rn, e, final))


def radial_answer(rn, e, final):
    a = rn.calc_sts_g_functions(e) if final is None else rn.calc_sts_g_functions(e, final_time=final)
    return [compare.plain(list(a[0])), compare.plain(list(a[1])), compare.plain(rn.lntts), compare.plain(rn.g),
            float(rn.t_s), compare.plain(rn.g_sts(rn.lntts[3:9]))]


class Check(BaseCheck):
    quick_runs = 240
    thorough_runs = 12000
    quick_wall = 200
    rule = ("One run = a seeded history of 3-10 operations (set height, simulate hybrid/hourly, size, recompute "
            "g-functions, change flow or fluid, reports, failed and interrupted attempts) on a ground heat "
            "exchanger, or of updates on a borehole heat exchanger or short-time-step solver; every simulation, "
            "sizing, update and the reports after it are compared with a freshly built object put directly into "
            "the present state, in a process that never saw the history.")
    state_note = "distinct (object kind, operation history, faults) reached"
    real = ["ghedt.ground_heat_exchangers", "ghedt.peak_load_analysis_tool", "ghedt.gfunction", "pygfunction pipes"]
    stubs = ["long-time g-function solver (fast stand-in; pygfunction's own solver in about 3% of the runs)"]
    assumptions = ["the load representation belongs to construction (it does not follow later changes, as documented "
                   "in the code), so the twin is constructed from the same inputs"]
    shrink_keys = ["ops"]

    def generate(self, rng, i, tier):
        r = rng.random()
        if r < 0.42:
            return self.gen_bhe(rng)
        if r < 0.55:
            inps = [world.draw_inputs(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
            seq = []
            for _ in range(rng.randint(2, 5)):
                x = {"j": rng.randrange(len(inps)), "H": rng.choice([None, 60.0, 150.0]),
                     "final": rng.choice([None, None, None, 20 * 3600., 90 * 3600.])}
                if seq and rng.random() < 0.5:
                    # the same exchanger again, changed in place
                    x.update(j=seq[-1]["j"], H=seq[-1]["H"],
                             chg=ops.draw_changes(rng, [n for n in ops.CHANGES if n[:4] in ("soil", "grou", "pipe")]))
                if rng.random() < 0.25:
                    x["line"] = round(rng.random(), 6)
                seq.append(x)
            return {"what": "radial", "inps": inps, "ops": seq}
        spec = world.draw_spec(rng)
        inp = spec["inp"]
        spec["inp"]["months"] = rng.choice([12, 12, 12, 24])

        def height():
            if spec["curves"] == 1:
                return round(inp["H"] * rng.choice([1.0, 1.0, 0.98, 0.9]), 3)
            return round(rng.uniform(inp["minH"], inp["maxH"]), 3) if rng.random() < 0.8 else \
                rng.choice([inp["minH"], inp["maxH"], 0.8 * inp["minH"]])
        seq = []
        n = rng.randint(3, 9)
        sizes = 0
        if rng.random() < 0.3:
            # the library follows the present state each time it is computed anew
            n = rng.randint(0, 3)
            for _ in range(rng.choice([2, 2, 3])):
                seq += [{"op": "gfun"}, {"op": "chg", "chg": ops.draw_changes(rng)} if rng.random() < 0.35 else
                        {"op": "flow", "m": round(rng.uniform(0.1, 0.7), 3) if rng.random() < 0.7 else None,
                         "fluid": rng.choice([None, rng.choice(ops.FLUIDS)]), "via": "update"}]
            seq.append({"op": "gfun"})
        for _ in range(n):
            r = rng.random()
            if r < 0.06:
                op = {"op": "chg", "chg": ops.draw_changes(rng)}
            elif r < 0.2:
                op = {"op": "setH", "H": height()}
            elif r < 0.42:
                op = {"op": "simulate", "method": "hybrid", "explicit": rng.random() < 0.5}
            elif r < 0.47:
                op = {"op": "simulate", "method": "hourly"}
            elif r < 0.52:
                op = {"op": "simulate", "method": "daily"}
            elif r < 0.62 and sizes < 2 and spec["curves"] > 1:
                op = {"op": "size", "method": "hybrid"}
                sizes += 1
            elif r < 0.7:
                op = {"op": "gfun"}
            elif r < 0.86:
                op = {"op": "flow", "m": round(rng.uniform(0.15, 0.7), 3) if rng.random() < 0.85 else None,
                      "fluid": rng.choice([None, rng.choice(ops.FLUIDS)]),
                      "via": rng.choice(["update", "update", "Rb"])}
            else:
                op = {"op": rng.choice(["repr", "grab", "Rb", "equiv", "frame", "export", "hourlyrep", "plot"])}
                if op["op"] == "plot":
                    op = ops.draw_plot(rng)
            if op["op"] in ("simulate", "size", "gfun", "flow", "repr", "equiv") and rng.random() < 0.22:
                if rng.random() < 0.5:
                    op["line"] = round(rng.random(), 6)
                else:
                    op["call"] = inject.draw(rng)
            seq.append(op)
        seq.append({"op": "simulate", "method": "hybrid"})
        return {"what": "ghe", "spec": spec, "ops": seq, "real": rng.random() < 0.05 and inp["bhe"] != "double"}

    def gen_bhe(self, rng):
        inp = world.draw_inputs(rng)
        seq = []
        for _ in range(rng.randint(2, 8)):
            r = rng.random()
            if r < 0.2:
                op = {"op": "setH", "H": rng.choice([40.0, 75.5, 120.0, 180.0])}
            elif r < 0.7:
                op = {"op": "flow", "m": round(rng.uniform(0.1, 0.8), 3) if rng.random() < 0.8 else None,
                      "fluid": rng.choice([None, rng.choice(ops.FLUIDS)]),
                      "via": rng.choice(["update", "update", "Rb"])}
            elif r < 0.8:
                op = {"op": "kg", "k": round(rng.uniform(0.6, 2.4), 2)}
            elif r < 0.88 and inp["bhe"] != "coaxial":
                op = {"op": "kp", "k": round(rng.uniform(0.3, 0.6), 2)} if rng.random() < 0.6 else \
                    {"op": "eps", "k": rng.choice([1e-6, 1e-5, 1e-4, 4e-4])}
            else:
                op = {"op": "equiv"}
            if op["op"] in ("flow", "equiv") and rng.random() < 0.25:
                op["line"] = round(rng.random(), 6)
            seq.append(op)
        return {"what": "bhe", "inp": inp, "ops": seq}

    def execute(self, c, ctx):
        if c.get("real"):
            env.G["mode"] = "real"
            ctx.stat("real_solver_runs")
        with core.Zygote() as z:
            getattr(self, "do_" + c["what"])(c, ctx, z)
        if len(c["ops"]) > 1:
            ctx.nontrivial = True
        ctx.sim_time += len(c["ops"])
        ctx.stat("runs_" + c["what"])

    # -- faulted performance ---------------------------------------------------
    def perform(self, fn, op, ctx):
        """-> ("ok", value) | ("raised", name) | ("faulted", None)"""
        if "line" in op:
            _, n = core.in_fork(lambda: ops.dry_lines(fn))
            if not n:
                return ops.outcome(fn)
            w = inject.LineWatch(inject.pick_line(op["line"], n))
        elif "call" in op:
            _, s, num, cal = core.in_fork(lambda: ops.dry(fn))
            p = ops.watch_from(s, num, cal).choose(op["call"])
            if not p:
                return ops.outcome(fn)
            w = inject.CallWatch(p)
        else:
            return ops.outcome(fn)
        try:
            with w:
                r = ["ok", fn()]
        except BaseException as e:
            r = ["raised", type(e).__name__]
            del e
        if w.struck:
            ctx.fault("line:KeyboardInterrupt" if "line" in op else "call:" + w.struck[2])
            ctx.note("fault at", w.struck)
            if r[0] == "raised":
                return ["faulted", None]
        return r

    def differ(self, ctx, what, got, want, hist):
        d = compare.close(want, got, TOL, 1e-9)
        if d:
            ctx.fail("history-dependent", "%s differs from that of a fresh exchanger in the same state (%s); history: %s"
                     % (what, d, hist))
            return True
        return False

    def show(self, seq):
        return "; ".join(" ".join("%s" % (v,) for k, v in x.items() if k not in ("line", "call", "explicit")
                                  and v is not None) + (" (interrupted)" if "line" in x or "call" in x else "")
                         for x in seq)

    # -- ground heat exchanger -------------------------------------------------
    def do_ghe(self, c, ctx, z):
        spec = c["spec"]
        try:
            ghe, o, lib = world.build(spec)
        except ValueError as e:
            raise core.Skip("inputs not accepted: %s" % str(e)[:60])
        fluids = {id(o["fluid"]): (spec["inp"]["fluid"], o["fluid"])}
        m0 = float(ghe.bhe.m_flow_borehole)
        gfun = None
        chg = {}
        marks = []
        for k, op in enumerate(c["ops"]):
            if op["op"] == "chg":
                ops.alter(o, ghe.bhe, op["chg"])
                chg = dict(chg, **op["chg"])
                marks.append(("chg", sorted(op["chg"])))
                continue
            st = {"H": float(ghe.bhe.b.H), "m0": m0, "chg": chg, "m": float(ghe.bhe.m_flow_borehole),
                  "fluid": fluids[id(ghe.bhe.fluid)][0], "gfun": gfun}
            hist = self.show(c["ops"][:k + 1])
            lib_before = ghe.GFunction
            r = self.perform(lambda: ops.apply(ghe, op, fluids), op, ctx)
            marks.append((op["op"], r[0], op.get("line"), repr(op.get("call"))))
            ctx.note(k + 1, self.show([op]), "->", r[0])
            name = op["op"]
            if r[0] == "ok" and name == "gfun" or (r[0] == "faulted" and ghe.GFunction is not lib_before):
                gfun = [st["m"], st["fluid"], chg]
            if name in ("repr", "grab", "export", "frame", "setH", "Rb", "equiv", "flow", "plot", "hourlyrep"):
                if name == "flow" and r[0] == "ok":
                    now = {"H": st["H"], "kg": spec["inp"]["grout_k"], "kp": None,
                           "m": op["m"] if op["m"] is not None else st["m"], "chg": chg,
                           "fluid": op["fluid"] or st["fluid"]}
                    w = z.call(twin_bhe, spec["inp"], now, {"op": "numbers"})
                    if w[0] == "ok" and self.differ(ctx, "the borehole heat exchanger after a flow update",
                                                    ops.bhe_numbers(ghe.bhe), w[1], hist):
                        return
                if name in ("repr", "grab", "export", "Rb", "equiv", "frame", "plot", "hourlyrep") and r[0] == "ok":
                    again = ops.outcome(lambda: ops.apply(ghe, op, fluids))
                    if self.differ(ctx, "repeating '%s' at once" % name, again, r, hist):
                        return
                continue
            if r[0] == "faulted":
                continue
            want, rest = z.call(twin_ghe, spec, st, op, name in ("simulate", "size"))
            if self.differ(ctx, "'%s'" % self.show([op]), r, want, hist):
                return
            if not chg and (gfun is None or not gfun[2]) and name in ("simulate", "size", "gfun") and r[0] == "ok" and \
                    op.get("method") != "hourly" and \
                    ([st["m"], st["fluid"]] != [m0, spec["inp"]["fluid"]] or (gfun and gfun[:2] != [m0, spec["inp"]["fluid"]])):
                want2 = z.call(twin_rebuilt, spec, st, op)
                d = compare.close(want2, r, 2e-4, 2e-3) if want2[0] == "ok" else None
                if d:
                    ctx.fail("history-dependent", "'%s' differs from that of an exchanger constructed with the present flow "
                             "and fluid (%s); history: %s" % (self.show([op]), d, hist))
                    return
                if want2[0] == "ok":
                    ctx.stat("compared_with_rebuilt")
            if name in ("simulate", "size") and r[0] == "ok":
                got = ops.outcome(lambda: compare_results(ghe))
                if self.differ(ctx, "the report after '%s'" % name, got, rest, hist):
                    return
        ctx.state((c["what"], spec["inp"]["bhe"], spec["curves"], marks))

    # -- borehole heat exchanger -----------------------------------------------
    def do_bhe(self, c, ctx, z):
        inp = c["inp"]
        o = world.make_inputs_no_loads(inp)
        b = world.make_bhe(inp, o)
        fluids = {id(o["fluid"]): (inp["fluid"], o["fluid"])}
        st = {"H": inp["H"], "kg": inp["grout_k"], "kp": None}
        marks = []
        dirty = False
        for k, op in enumerate(c["ops"]):
            hist = self.show(c["ops"][:k + 1])
            name = op["op"]
            if name == "setH":
                b.b.H = st["H"] = op["H"]
                dirty = True
                continue
            if name == "kg":
                b.k_g = op["k"]
                b.grout.k = st["kg"] = op["k"]
                dirty = True
                continue
            if name == "kp":
                b.pipe.k = st["kp"] = op["k"]
                dirty = True
                continue
            if name == "eps":
                b.pipe.eps = st["eps"] = op["k"]
                dirty = True
                continue
            if name == "flow":
                kw = {}
                if op["m"] is not None:
                    kw["m_flow_borehole"] = op["m"]
                if op["fluid"]:
                    f = ops.fluid_of(op["fluid"])
                    fluids[id(f)] = (op["fluid"], f)
                    kw["fluid"] = f
                if op["via"] == "Rb" and kw:
                    fn = lambda: float(b.compute_effective_borehole_resistance(**kw))
                else:
                    fn = lambda: float(b.update_thermal_resistance(**kw))
                r = self.perform(fn, op, ctx)
                if r[0] == "faulted":
                    # a later update completes it; until then the object is in between
                    r = ops.outcome(lambda: float(b.update_thermal_resistance()))
                    now = dict(st, m=float(b.m_flow_borehole), fluid=fluids[id(b.fluid)][0])
                else:
                    now = dict(st, m=kw.get("m_flow_borehole", st.get("m", float(b.m_flow_borehole))),
                               fluid=op["fluid"] or st.get("fluid", inp["fluid"]))
                st["m"], st["fluid"] = now["m"], now["fluid"]
                dirty = False
                want = z.call(twin_bhe, inp, now, {"op": "numbers"})
                if want[0] == "ok":
                    if r[0] != "ok":
                        self.differ(ctx, "an update", r, want, hist)
                        return
                    if self.differ(ctx, "the returned resistance", r[1], want[1]["R"], hist):
                        return
                    if self.differ(ctx, "the exchanger after the update", bhe_answer(b, {"op": "n"}), want, hist):
                        return
            else:
                if dirty:
                    b.update_thermal_resistance()
                    dirty = False
                before = ops.bhe_numbers(b)
                r = self.perform(lambda: ops.eq_numbers(plat.equivalance.compute_equivalent(b)), op, ctx)
                if inp["bhe"] != "single" and self.differ(
                        ctx, "the exchanger after computing its equivalent", ops.bhe_numbers(b), before, hist):
                    return
                if r[0] == "faulted":
                    continue
                now = dict(st, m=st.get("m", float(b.m_flow_borehole)), fluid=st.get("fluid", inp["fluid"]))
                want = z.call(twin_bhe, inp, now, {"op": "equiv"})
                if self.differ(ctx, "the equivalent", r, want, hist):
                    return
            marks.append((name, op.get("line")))
        ctx.state((c["what"], inp["bhe"], self.show(c["ops"])))

    # -- short time step solver -------------------------------------------------
    def do_radial(self, c, ctx, z):
        inps = c["inps"]
        eqs = {}

        def eq(x):
            key = (x["j"], x["H"])
            if key not in eqs:
                i = dict(inps[x["j"]])
                if x["H"]:
                    i["H"] = x["H"]
                eqs[key] = (plat.equivalance.compute_equivalent(world.make_bhe(i)), i)
            return eqs[key]
        rn = plat.radial_numerical_borehole.RadialNumericalBH(eq(c["ops"][0])[0])
        changed = {}
        for k, x in enumerate(c["ops"]):
            e, i = eq(x)
            first, chg = changed.setdefault((x["j"], x["H"]), ({}, {}))
            if "chg" in x:
                alter_eq(e, first, x["chg"])
                chg.update(x["chg"])
            r = self.perform(lambda: radial_answer(rn, e, x["final"]), x, ctx)
            if r[0] == "faulted":
                continue
            want = z.call(twin_radial, [i], 0, x["final"], chg)
            if self.differ(ctx, "the short-time-step solution", r, want,
                           "; ".join("exchanger %d H=%s final=%s%s%s" % (y["j"], y["H"], y["final"],
                                     " changed %s" % y["chg"] if "chg" in y else "",
                                     " (interrupted)" if "line" in y else "") for y in c["ops"][:k + 1])):
                return
        ctx.state((c["what"], [(y["j"], y["H"], y["final"], y.get("line"), sorted(y.get("chg", ()))) for y in c["ops"]]))

    def shrink(self, c):
        yield from core.shrink_lists(c, self.shrink_keys)
        for j, op in enumerate(c["ops"]):
            for k in ("line", "call"):
                if k in op:
                    d = json.loads(json.dumps(c))
                    d["ops"][j].pop(k)
                    yield d
        if c.get("real"):
            yield dict(c, real=False)
