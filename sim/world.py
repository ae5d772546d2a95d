"""Seeded worlds: inputs of designs and ground heat exchangers."""
import copy
import math
import pickle
import random

import numpy as np

import ghedt as dt
import ghedt.peak_load_analysis_tool as plat
import pygfunction as gt

KINDS = ["single", "double", "coaxial"]
_B = plat.borehole_heat_exchangers
_M = plat.media


def draw_inputs(rng, kind=None):
    """JSON description of a design's inputs (without field)."""
    k = kind or rng.choice(KINDS)
    return {
        "bhe": k,
        "soil_k": round(rng.uniform(1.2, 3.2), 3),
        "soil_c": round(rng.uniform(1.8e6, 2.8e6), 0),
        "ugt": round(rng.uniform(12.0, 20.0), 2),
        "grout_k": round(rng.uniform(0.8, 1.8), 3),
        "rb": round(rng.uniform(0.07, 0.08), 4),
        "D": round(rng.uniform(1.0, 4.0), 2),
        "H": rng.choice([80.0, 96.0, 110.0, 120.5]),
        "minH": rng.choice([24.0, 40.0, 60.0]),
        "maxH": rng.choice([130.0, 135.0, 150.0, 200.0]),
        "months": rng.choice([12, 12, 24, 24, 36]),
        "maxE": rng.choice([33.0, 35.0, 38.0]),
        "minE": rng.choice([-2.0, 2.0, 5.0]),
        "V": round(rng.uniform(0.2, 0.6), 3),
        "fluid": rng.choice(["Water", "Water", "MPG"]),
        "loads": {"cool": round(rng.uniform(0.4, 1.6), 3), "heat": round(rng.uniform(0.2, 1.4), 3),
                  "phase": rng.choice([x for x in range(1, 24) if x != 12]), "seed": rng.randint(0, 9999)},
    }


def hourly_loads(spec, scale):
    """8760 ground extraction loads (W): heating positive, cooling negative."""
    r = np.random.RandomState(spec["seed"])
    h = np.arange(8760)
    season = np.cos(2 * math.pi * (h / 8760.0))             # winter +1
    day = 0.5 + 0.5 * np.cos(2 * math.pi * ((h - spec["phase"]) % 24) / 24.0)
    noise = np.repeat(r.rand(365), 24)
    peak = np.clip(day - 0.3, 0, None) ** 2 * 2.0
    heat = np.clip(season + 0.15, 0, None) * peak * (0.4 + 0.6 * noise) * spec["heat"]
    cool = np.clip(-season + 0.25, 0, None) * np.roll(peak, 12) * (0.4 + 0.6 * noise) * spec["cool"]
    q = (heat - cool) * scale
    return [float(round(x, 3)) for x in q]


def make_pipe(inp):
    eps, k, c = inp.get("eps", 1.0e-6), inp.get("pipe_k", 0.4), inp.get("pipe_c", 1542000.0)
    if inp["bhe"] == "coaxial":
        return _M.Pipe((0, 0), [0.0221, 0.025], [0.0487, 0.055], 0, eps, [k, k], c)
    n = 1 if inp["bhe"] == "single" else 2
    s = inp.get("shank", 0.0323)
    pos = _M.Pipe.place_pipes(s, 0.013335, n)
    return _M.Pipe(pos, 0.0108, 0.013335, s, eps, k, c)


def make_grout(inp):
    return _M.Grout(inp["grout_k"], inp.get("grout_c", 3901000.0))


def pipe_key(inp):
    return [inp["bhe"]] + [inp.get(x) for x in ("eps", "pipe_k", "pipe_c", "shank")]


def bhe_class(inp):
    return {"single": _B.SingleUTube, "double": _B.MultipleUTube, "coaxial": _B.CoaxialPipe}[inp["bhe"]]


def make_inputs(inp, load_scale=2500.0):
    """The caller-owned objects."""
    fluid = gt.media.Fluid("Water", 0.0) if inp["fluid"] == "Water" else gt.media.Fluid("MPG", 20.0)
    return {
        "V": inp["V"],
        "bhe_object": bhe_class(inp),
        "fluid": fluid,
        "borehole": gt.boreholes.Borehole(inp["H"], inp["D"], inp["rb"], 0.0, 0.0),
        "pipe": make_pipe(inp),
        "grout": make_grout(inp),
        "soil": _M.Soil(inp["soil_k"], inp["soil_c"], inp["ugt"]),
        "sim_params": _M.SimulationParameters(1, inp["months"], inp["maxE"], inp["minE"],
                                              inp["maxH"], inp["minH"]),
        "loads": hourly_loads(inp["loads"], load_scale),
    }


def make_bhe(inp, o=None, m_flow=None, fluid=None):
    o = o or make_inputs_no_loads(inp)
    f = fluid or o["fluid"]
    m = m_flow if m_flow is not None else inp["V"] / 1000.0 * f.rho
    return o["bhe_object"](m, f, o["borehole"], o["pipe"], o["grout"], o["soil"])


def make_inputs_no_loads(inp):
    i = dict(inp)
    fluid = gt.media.Fluid("Water", 0.0) if i["fluid"] == "Water" else gt.media.Fluid("MPG", 20.0)
    return {
        "V": i["V"], "bhe_object": bhe_class(i), "fluid": fluid,
        "borehole": gt.boreholes.Borehole(i["H"], i["D"], i["rb"], 0.0, 0.0),
        "pipe": make_pipe(i), "grout": make_grout(i),
        "soil": _M.Soil(i["soil_k"], i["soil_c"], i["ugt"]),
    }


def rect(nx, ny, B):
    return dt.coordinates.rectangle(nx, ny, B, B)


def draw_field(rng):
    f = {"nx": rng.randint(1, 4), "ny": rng.randint(1, 5), "B": rng.choice([4.0, 5.0, 6.5])}
    if rng.random() < 0.35:
        f["order"] = rng.choice(["reversed", "by-y", "shuffled"])
    return f


def field_coords(f):
    """the locations of a field: a rectangle, not always listed in ascending order"""
    r = rect(f["nx"], f["ny"], f["B"])
    how = f.get("order")
    if how == "reversed":
        r = r[::-1]
    elif how == "by-y":
        r = sorted(r, key=lambda p: (p[1], p[0]))
    elif how == "shuffled":
        random.Random(f["nx"] * 10 + f["ny"]).shuffle(r)
    return r


def make_library(inp, o, field, curves=1, coords=None):
    """A g-function library with `curves` heights for a rectangular field."""
    coords = coords if coords is not None else field_coords(field)
    lo, hi = inp["minH"], inp["maxH"]
    Hs = [o["borehole"].H] if curves == 1 else \
        [lo + (hi - lo) * i / (curves - 1) for i in range(curves)]
    n = len(Hs)
    m = o["V"] / 1000.0 * o["fluid"].rho
    log_time = dt.utilities.Eskilson_log_times()
    return dt.gfunction.compute_live_g_function(
        field["B"], Hs, [o["borehole"].r_b] * n, [o["borehole"].D] * n, m, o["bhe_object"],
        log_time, coords, o["fluid"], o["pipe"], o["grout"], o["soil"])


def make_ghe(inp, o, field, lib):
    n = len(lib.bore_locations)
    return dt.ground_heat_exchangers.GHE(
        o["V"] * n, field["B"], o["bhe_object"], o["fluid"], o["borehole"], o["pipe"],
        o["grout"], o["soil"], lib, o["sim_params"], o["loads"])


def load_scale(field, per_bore=2600.0):
    return per_bore * field["nx"] * field["ny"]


def build(spec):
    """spec: {"inp","field","curves"} -> (ghe, inputs, library)"""
    o = make_inputs(spec["inp"], load_scale(spec["field"], spec.get("per_bore", 2600.0)))
    lib = make_library(spec["inp"], o, spec["field"], spec.get("curves", 3))
    return make_ghe(spec["inp"], o, spec["field"], lib), o, lib


def draw_spec(rng, kind=None, curves=None):
    return {"inp": draw_inputs(rng, kind), "field": draw_field(rng),
            "curves": curves or rng.choice([1, 3, 3, 3, 5]),
            "per_bore": rng.choice([2600.0, 4500.0, 8000.0])}


# -- designs --------------------------------------------------------------------
ROUTINES = ["near-square", "rectangle", "bi-rectangle", "bi-zoned"]


def draw_design(rng, routine=None, kind=None):
    r = routine or rng.choice(ROUTINES)
    return {"inp": draw_inputs(rng, kind), "routine": r,
            "flow": rng.choice(["borehole", "borehole", "system"]),
            "geo": {"B": rng.choice([4.0, 5.0, 6.0]), "length": round(rng.uniform(18, 34), 2),
                    "width": round(rng.uniform(14, 26), 2), "B_min": rng.choice([3.5, 4.0, 5.0]),
                    "B_max_x": rng.choice([7.0, 8.0, 10.0]), "B_max_y": rng.choice([8.0, 9.0])},
            "nbh": rng.choice([3, 5, 8, 12, 18])}


def make_constraints(d):
    g = d["geo"]
    if d["routine"] == "near-square":
        return dt.media.GeometricConstraints(B=g["B"], length=g["length"])
    if d["routine"] == "rectangle":
        return dt.media.GeometricConstraints(length=g["length"], width=g["width"],
                                             B_min=g["B_min"], B_max_x=g["B_max_x"])
    return dt.media.GeometricConstraints(length=g["length"], width=g["width"], B_min=g["B_min"],
                                         B_max_x=g["B_max_x"], B_max_y=g["B_max_y"])


def design_inputs(d):
    o = make_inputs(d["inp"], 2600.0 * d["nbh"])
    if d["flow"] == "system":
        o["V"] = d["inp"]["V"] * d["nbh"]
    o["geo"] = make_constraints(d)
    return o


def make_design(d, o, method="hybrid"):
    return dt.design.Design(o["V"], o["borehole"], o["bhe_object"], o["fluid"], o["pipe"],
                            o["grout"], o["soil"], o["sim_params"], o["geo"], o["loads"],
                            method=method, routine=d["routine"], flow=d["flow"])


# -- accelerator for searches -------------------------------------------------------
_memo = {}


def _numbers(obj, depth=0):
    out = []
    for k in sorted(vars(obj)):
        v = vars(obj)[k]
        if isinstance(v, (int, float, np.floating, np.integer)):
            out.append((k, float(v)))
        elif isinstance(v, np.ndarray) and v.size < 50 and v.dtype.kind == "f":
            out.append((k, tuple(v.ravel().tolist())))
        elif isinstance(v, (list, tuple)) and depth < 2:
            out.append((k, repr(v)[:300] if not hasattr(v, "__dict__") else ""))
        elif hasattr(v, "__dict__") and depth < 2 and not callable(v):
            out.append((k, tuple(_numbers(v, depth + 1))))
    return out


def memo_short_time_steps():
    """Searches evaluate the same exchanger for hundreds of fields; reuse its
    short-time-step solution (a pure function of the exchanger's numbers).
    Only used by checks whose property is not about that solution."""
    cls = plat.radial_numerical_borehole.RadialNumericalBH
    orig = getattr(cls, "calc_sts_g_functions", None)
    if orig is None or getattr(orig, "memoised", False):
        return

    def calc_sts_g_functions(self, single_u_tube, *a, **k):
        try:
            key = (repr(_numbers(single_u_tube)), repr(a), repr(sorted(k.items())))
            key = hash(key)
        except Exception:
            return orig(self, single_u_tube, *a, **k)
        hit = _memo.get(key)
        if hit is None:
            r = orig(self, single_u_tube, *a, **k)
            state = {n: v for n, v in vars(self).items() if v is not single_u_tube}
            _memo[key] = (copy.deepcopy(state), [n for n, v in vars(self).items() if v is single_u_tube],
                          copy.deepcopy(r))
            return r
        state, refs, r = hit
        vars(self).update(copy.deepcopy(state))
        for n in refs:
            setattr(self, n, single_u_tube)
        return copy.deepcopy(r)
    calc_sts_g_functions.memoised = True
    calc_sts_g_functions.original = calc_sts_g_functions.__wrapped__ = orig
    cls.calc_sts_g_functions = calc_sts_g_functions


_memo_peaks = {}


def memo_peak_simulations():
    """Reuse the two-day hourly simulations of the load representation (a pure
    function of its numeric arguments).  Same use as above."""
    cls = plat.ground_loads.Loads
    orig = getattr(cls, "simulate_hourly", None)
    if orig is None or getattr(orig, "memoised", False):
        return
    memo = _memo_peaks

    def simulate_hourly(*a, **k):
        try:
            key = tuple(_arg_key(x) for x in a) + tuple((n, _arg_key(k[n])) for n in sorted(k))
        except TypeError:
            return orig(*a, **k)
        hit = memo.get(key)
        if hit is None:
            memo[key] = hit = pickle.dumps(orig(*a, **k))
        return pickle.loads(hit)
    simulate_hourly.memoised = True
    simulate_hourly.original = simulate_hourly.__wrapped__ = orig
    cls.simulate_hourly = staticmethod(simulate_hourly)


def _arg_key(x):
    if isinstance(x, (int, float, str)):
        return x
    if isinstance(x, np.ndarray):
        return (x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return tuple(_arg_key(v) for v in x)
    if hasattr(x, "x") and hasattr(x, "y"):
        return (type(x).__name__, np.asarray(x.x).tobytes(), np.asarray(x.y).tobytes(),
                getattr(x, "_kind", None), repr(getattr(x, "fill_value", None))[:80])
    raise TypeError


def warm(fn):
    """Fill the memos in this process with what fn, run in a fork, needs."""
    from . import core

    def f():
        try:
            fn()
        except Exception:
            pass
        return pickle.dumps((_memo, _memo_peaks))
    try:
        a, b = pickle.loads(core.in_fork(f))
    except (RuntimeError, pickle.PickleError, TypeError, AttributeError):
        return
    _memo.update(a)
    _memo_peaks.update(b)
