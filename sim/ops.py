"""Operations a user performs on an exchanger, and their answers."""
import json
import os

from . import compare, files, inject, world

import ghedt as dt
import ghedt.peak_load_analysis_tool as plat


def fluid_of(name):
    import pygfunction as gt
    if "/" in name:                 # e.g. "Water/mu*4": another fluid that differs in one property only
        base, change = name.split("/")
        f = fluid_of(base)
        prop, factor = change.split("*")
        setattr(f, prop, getattr(f, prop) * float(factor))
        return f
    return gt.media.Fluid("Water", 0.0) if name == "Water" else gt.media.Fluid("MPG", float(name[3:] or 20))


FLUIDS = ["Water", "MPG20", "MPG30", "MPG35", "Water/mu*4", "Water/mu*0.7", "Water/k*0.6", "Water/cp*1.2",
          "MPG20/mu*2", "MPG20/rho*1.03", "MPG30/k*1.3"]


def bhe_numbers(b):
    out = {"R": float(b.compute_effective_borehole_resistance())}
    for n in ("h_f", "R_p", "R_f", "m_flow_borehole", "m_flow_pipe", "R_fp", "R_ff", "R_p_in", "R_p_out", "R_f_in",
              "R_f_a_in", "R_f_a_out", "R_grout"):
        if hasattr(b, n) and isinstance(getattr(b, n), (int, float)) or hasattr(getattr(b, n, None), "dtype"):
            out[n] = compare.plain(getattr(b, n))
    out["repr"] = compare.scrub(repr(b))
    return out


def eq_numbers(e):
    return {"R": float(e.compute_effective_borehole_resistance()), "k_g": float(e.grout.k), "k_p": float(e.pipe.k),
            "r_in": float(e.pipe.r_in), "r_out": float(e.pipe.r_out), "s": float(e.pipe.s), "rb": float(e.b.r_b),
            "pos": compare.plain(e.pipe.pos), "m": float(e.m_flow_borehole), "H": float(e.b.H),
            "media": [float(e.soil.k), float(e.soil.rhoCp), float(e.soil.ugt), float(e.grout.rhoCp),
                      float(e.pipe.rhoCp), float(e.pipe.eps), float(e.fluid.cp), float(e.fluid.mu)]}


CHANGES = ["soil.k", "soil.rhoCp", "soil.ugt", "grout.k", "grout.rhoCp", "pipe.rhoCp", "sim_params.max_EFT_allowable",
           "sim_params.min_EFT_allowable", "sim_params.max_Height", "loads"]


def draw_changes(rng, names=None):
    """relative changes of the properties of a user's own input objects, made in place"""
    return {n: round(rng.uniform(0.8, 1.25), 3) for n in rng.sample(names or CHANGES, rng.choice([1, 1, 2]))}


def alter(o, b, changes):
    """change the inputs `o` of an existing exchanger in place (factors of their original values)"""
    first = o.setdefault("_first", {})
    for name, factor in sorted(changes.items()):
        if name == "loads":
            if "loads" in o:
                base = first.setdefault(name, list(o["loads"]))
                o["loads"][:] = [q * factor for q in base]
            continue
        part, prop = name.split(".")
        if part not in o:
            continue
        v = first.setdefault(name, getattr(o[part], prop)) * factor
        setattr(o[part], prop, v)
        if name == "grout.k":
            b.k_g = v
        if name == "soil.k":
            b.k_s = v


def lib_numbers(g):
    return compare.plain([g.B, g.r_b_values, g.D_values, g.g_lts, g.log_time, g.bore_locations])


def published(ghe):
    return {"HPEFT": compare.plain(list(ghe.HPEFT)), "dTb": compare.plain(list(ghe.dTb))}


def drawn(fig):
    """what a figure shows, as plain data; closes it"""
    import matplotlib.pyplot as plt
    try:
        out = []
        for ax in fig.axes:
            out.append([[compare.plain(l.get_xydata()) for l in ax.lines],
                        [compare.plain(x.get_offsets()) for x in ax.collections],
                        [[t.get_text()] + compare.plain([float(v) for v in t.get_position()]) for t in ax.texts],
                        [ax.get_xlabel(), ax.get_ylabel(), ax.get_title()],
                        [l.get_label() for l in ax.lines if not l.get_label().startswith("_")],
                        compare.plain([float(v) for v in ax.get_xlim() + ax.get_ylim()])])
        return out
    finally:
        plt.close(fig)


def plot(ghe, op):
    of = op["of"]
    if of == "curves":
        return ghe.GFunction.visualize_g_functions()[0]
    if of == "field":
        return ghe.GFunction.visualize_borefield()[0]
    if of == "coordinates":
        return dt.coordinates.visualize_coordinates(ghe.GFunction.bore_locations)[0]
    if of == "area":
        xy = ghe.GFunction.bore_locations
        return ghe.GFunction.visualize_area_and_constraints(
            [[-1.0, -1.0], [50.0, -1.0], [50.0, 40.0]], xy, no_go=[[3.0, 3.0], [9.0, 3.0], [6.0, 8.0]])[0]
    return ghe.hybrid_load.visualize_fluid_simulation_results(op.get("month", 1))


PLOTS = ["curves", "curves", "field", "coordinates", "area", "fluid", "fluid"]


def draw_plot(rng):
    return {"op": "plot", "of": rng.choice(PLOTS), "month": rng.randint(1, 12)}


def apply(ghe, op, fluids=None):
    """perform one operation; the answer as plain data"""
    k = op["op"]
    if k == "simulate":
        if op.get("explicit", True) is False:
            r = ghe.simulate()
        else:
            r = ghe.simulate(method=op["method"])
        return dict(published(ghe), ret=compare.plain(list(r)))
    if k == "size":
        ghe.size(method=op["method"])
        return dict(published(ghe), H=float(ghe.bhe.b.H))
    if k == "gfun":
        ghe.compute_g_functions()
        return lib_numbers(ghe.GFunction)
    if k == "grab":
        g = ghe.grab_g_function(ghe.B_spacing / op["H"] if op.get("H") else ghe.B_spacing / ghe.bhe.b.H)
        return [compare.plain(g.x), compare.plain(g.y)]
    if k == "repr":
        return compare.scrub(repr(ghe))
    if k == "setH":
        ghe.bhe.b.H = op["H"]
        return None
    if k == "flow":
        kw = {}
        if op.get("m") is not None:
            kw["m_flow_borehole"] = op["m"]
        if op.get("fluid") is not None:
            f = fluid_of(op["fluid"])
            if fluids is not None:
                fluids[id(f)] = (op["fluid"], f)
            kw["fluid"] = f
        if op.get("via") == "Rb" and kw:        # without arguments it is a read, not an update
            return float(ghe.bhe.compute_effective_borehole_resistance(**kw))
        return float(ghe.bhe.update_thermal_resistance(**kw))
    if k == "Rb":
        return float(ghe.bhe.compute_effective_borehole_resistance())
    if k == "equiv":
        return eq_numbers(plat.equivalance.compute_equivalent(ghe.bhe))
    if k == "frame":
        return ghe.hybrid_load.create_dataframe_of_peak_analysis().to_string()
    if k == "hourlyrep":
        return compare.plain(ghe.hybrid_load.hourly_load_representation(op.get("year", 2019)))
    if k == "export":
        with files.Scratch() as d:
            files.save_export(os.path.join(d, "x"), files.FakeSearch(ghe, ghe.GFunction.bore_locations))
            with open(os.path.join(d, "x.json")) as f:
                return compare.plain(json.load(f))
    if k == "plot":
        return drawn(plot(ghe, op))
    if k == "cost":
        return float(ghe.cost(op["a"], op["b"]))
    raise AssertionError(k)


def outcome(fn):
    try:
        return ["ok", fn()]
    except Exception as e:
        return ["raised", type(e).__name__]


def dry(fn, lines=False):
    """-> (outcome, call watch) of an undisturbed performance; run it in a fork"""
    w = inject.CallWatch()
    with w:
        out = outcome(fn)
    return out, w.sites, w.numeric, w.callee


def dry_lines(fn):
    w = inject.LineWatch()
    with w:
        out = outcome(fn)
    return out, w.count()


def watch_from(sites, numeric, callee):
    w = inject.CallWatch()
    w.sites, w.numeric, w.callee = sites, numeric, callee
    return w
