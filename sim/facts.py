"""What a saved object is and does, as plain data."""
from . import compare, env, files, ops, world

import ghedt as dt
import ghedt.peak_load_analysis_tool as plat


def state(kind, obj):
    """the object's data (public attributes), exactly"""
    if kind == "json":
        return obj
    if kind == "design":
        return {"class": type(obj).__name__, "data": compare.snap(obj)}
    if kind == "ghe":
        return ghe_state(obj)
    if kind == "search":
        return {"key": compare.plain(obj.selection_key), "sel": compare.plain(obj.selected_coordinates),
                "T": sorted([int(k), float(v)] for k, v in obj.calculated_temperatures.items()),
                "flow": compare.plain([obj.flow, obj.V_flow, obj.method]), "ghe": ghe_state(obj.ghe)}
    if kind == "lib":
        return ops.lib_numbers(obj)
    raise AssertionError(kind)


def ghe_state(g):
    return {"H": float(g.bhe.b.H), "nbh": float(g.nbh), "B": float(g.B_spacing), "V": float(g.V_flow_system),
            "HPEFT": compare.plain(list(g.HPEFT)), "dTb": compare.plain(list(g.dTb)),
            "m": float(g.bhe.m_flow_borehole), "loads": [float(x) for x in g.hourly_extraction_ground_loads[:200]],
            "hyb": compare.plain([g.hybrid_load.load, g.hybrid_load.hour]), "lib": ops.lib_numbers(g.GFunction),
            "soil": compare.snap(g.bhe.soil), "sp": compare.snap(g.sim_params), "fluid": compare.snap(g.bhe.fluid),
            "pipe": compare.snap(g.bhe.pipe), "grout": compare.snap(g.bhe.grout), "bore": compare.snap(g.bhe.b)}


def behaviour(kind, obj, deep):
    """what it answers (may change the object: call in a fork or on a loaded copy)"""
    if kind == "design":
        if not deep:
            return None
        r = ops.outcome(obj.find_design)
        if r[0] == "raised":
            return r
        b = r[1]
        out = [state("search", b)]
        out.append(ops.outcome(lambda: list(b.ghe.simulate(method="hybrid"))))
        out.append(compare.plain(list(b.ghe.HPEFT)))
        return out
    if kind == "json":
        return None
    if kind == "lib":
        return [ops.outcome(lambda: compare.plain(list(obj.g_function_interpolation(q)))) for q in (0.03, 0.045, 0.06)]
    g = obj.ghe if kind == "search" else obj
    out = [compare.results_of(g), ops.bhe_numbers(g.bhe)]
    if deep:
        out.append(ops.outcome(lambda: ops.apply(g, {"op": "simulate", "method": "hybrid"})))
        if kind == "search":
            g.compute_g_functions()
        out.append(ops.outcome(lambda: ops.apply(g, {"op": "size", "method": "hybrid"})))
        out.append(ops.outcome(lambda: compare.results_of(g)))
    return out


def facts(kind, obj, deep):
    s = state(kind, obj)
    return [s, behaviour(kind, obj, deep)]


def load(kind, path, deep):
    """in a process that has not seen the object"""
    try:
        obj = files.load_json(path) if kind == "json" else files.load_obj(path)
    except Exception as e:
        return ["load raised", "%s: %s" % (type(e).__name__, str(e)[:200])]
    return ["ok"] + facts(kind, obj, deep)


def wrong(want, got):
    """'' or how the reloaded differs"""
    if got[0] != "ok":
        return "loading it: " + got[1]
    d = compare.close(want[0], got[1], 0, 0)
    if d:
        return "its data: " + d
    d = compare.close(want[1], got[2], 1e-9, 1e-9)
    return "its answers: " + d if d else ""


# -- exports ----------------------------------------------------------------------------
UTUBE = ["r_b", "r_in", "r_out", "s", "m_flow_borehole", "k_g", "k_s", "k_p"]


def export_expected(search, fresh_eq):
    """evaluated on the live search (in a fork), independently of the exporter"""
    g = search.ghe
    eq = plat.equivalance.compute_equivalent(g.bhe) if fresh_eq else g.bhe_eq
    f = g.grab_g_function(g.B_spacing / g.bhe.b.H)
    return {"H": float(g.bhe.b.H), "n": len(search.selected_coordinates),
            "eq": {"r_b": float(eq.b.r_b), "r_in": float(eq.pipe.r_in), "r_out": float(eq.pipe.r_out),
                   "s": float(eq.pipe.s), "m_flow_borehole": float(eq.m_flow_borehole), "k_g": float(eq.grout.k),
                   "k_s": float(eq.soil.k), "k_p": float(eq.pipe.k), "pos": compare.plain(eq.pipe.pos)},
            "gx": compare.plain(f.x), "gy": compare.plain(f.y), "tail": dt.utilities.Eskilson_log_times()}


def export_wrong(e, d):
    import numpy as np
    if not isinstance(d, dict):
        return "not an object"
    if d.get("borehole_length") != e["H"]:
        return "borehole_length %r, the exchanger's is %r" % (d.get("borehole_length"), e["H"])
    if d.get("number_of_boreholes") != e["n"]:
        return "number_of_boreholes %r, selected are %r" % (d.get("number_of_boreholes"), e["n"])
    u = d.get("single_u_tube", {})
    for k in UTUBE:
        if k not in u or abs(u[k] - e["eq"][k]) > 1e-9 * max(1.0, abs(e["eq"][k])):
            return "single_u_tube %s %r, the equivalent has %r" % (k, u.get(k), e["eq"][k])
    r = compare.close(e["eq"]["pos"], u.get("pos"), 1e-9)
    if r:
        return "single_u_tube pos " + r
    pairs = d.get("g_function_pairs") or []
    if len(pairs) < 28:
        return "only %d g-function pairs" % len(pairs)
    t = [p["ln_tts"] for p in pairs]
    v = [p["g_value"] for p in pairs]
    for i in range(1, len(t)):
        if not t[i] > t[i - 1]:
            return "g-function times not ascending at pair %d: %r after %r" % (i, t[i], t[i - 1])
    if any(abs(a - b) > 1e-9 for a, b in zip(t[-len(e["tail"]):], e["tail"])):
        return "the pairs do not end with the standard long-time points"
    want = np.interp(t, e["gx"], e["gy"])
    for i in range(len(t)):
        if not e["gx"][0] - 1e-9 <= t[i] <= e["gx"][-1] + 1e-9 or abs(want[i] - v[i]) > 1e-7 * max(1.0, abs(v[i])):
            return "pair %d is (%r, %r), the exchanger's g-function there is %r" % (i, t[i], v[i], want[i])
    return ""
