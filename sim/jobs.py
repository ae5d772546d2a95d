"""Calculations described by JSON, with their answers as plain data.

Used to compare the same calculation in differing surroundings; also the entry
point of a simulated process:  python -m sim.jobs <dir> < jobs.json
"""
import copy
import json
import os
import re
import sys

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from sim import env as _env
    _env.boot()

from sim import compare, files, ops, world   # noqa: E402

import ghedt as dt                           # noqa: E402
import ghedt.peak_load_analysis_tool as plat  # noqa: E402

_NUM = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")


def close_text(a, b, rel=1e-6):
    """reports: equal up to the last digits of the numbers in them"""
    if a == b:
        return ""
    la, lb = a.splitlines(), b.splitlines()
    if len(la) != len(lb):
        return "%d lines != %d lines" % (len(la), len(lb))
    for i, (x, y) in enumerate(zip(la, lb)):
        if x == y:
            continue
        if _NUM.sub("#", x).split() != _NUM.sub("#", y).split():
            return "line %d: %r != %r" % (i + 1, x[:120], y[:120])
        for u, v in zip(_NUM.findall(x), _NUM.findall(y)):
            u, v = float(u), float(v)
            if abs(u - v) > max(2e-4, rel * max(abs(u), abs(v))):
                return "line %d: %r != %r" % (i + 1, x[:120], y[:120])
    return ""


def differs(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        if a.keys() != b.keys():
            return "%s: keys differ" % path
        for k in a:
            r = differs(a[k], b[k], path + "." + str(k))
            if r:
                return r
        return ""
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: length %d != %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = differs(x, y, "%s[%d]" % (path, i))
            if r:
                return r
        return ""
    if isinstance(a, str) and isinstance(b, str):
        r = close_text(a, b)
        return path + " " + r if r else ""
    return compare.close(a, b, 1e-9, 1e-9, path)


# -- drawing -------------------------------------------------------------------------
def draw(rng, kinds=None):
    k = rng.choice(kinds or ["domain", "domain", "polygon", "ghe", "ghe", "ghe", "bhe", "design", "design", "lib",
                            "misc"])
    if k == "domain":
        f = rng.choice(["near", "rect", "bi", "nested", "zoned", "zonednested", "shapes"])
        return {"k": k, "f": f, "L": round(rng.uniform(16, 60), 2), "W": round(rng.uniform(14, 45), 2),
                "Bmin": rng.choice([3.0, 4.0, 4.5, 5.0]), "Bx": rng.choice([7.0, 8.5, 10.0]),
                "By": rng.choice([8.0, 9.0, 12.0]), "n": [rng.randint(3, 9), rng.randint(3, 9)]}
    if k == "polygon":
        a, b = round(rng.uniform(25, 50), 2), round(rng.uniform(20, 40), 2)
        prop = [[0, 0], [a, 0], [a, round(b * rng.uniform(0.5, 1), 2)], [round(a * 0.6, 2), b], [0, b]]
        x, y = round(a * rng.uniform(0.1, 0.4), 2), round(b * rng.uniform(0.1, 0.4), 2)
        no = [[x, y], [x + 8, y], [x + 8, y + 6], [x, y + 6]]
        return {"k": k, "prop": prop, "no": rng.choice([no, no, None]), "Bmin": rng.choice([4.0, 5.0]),
                "Bx": rng.choice([8.0, 10.0]), "By": rng.choice([8.0, 11.0]),
                "grid": rng.choice(["plain", "plain", "double", "close", "negative", "L"])}
    if k == "misc":
        return {"k": k, "units": rng.choice(["W", "kW", "kW", "J"]), "year": rng.choice([2019, 2020, 2023]),
                "hours": [rng.randint(0, 8783) for _ in range(5)], "L": round(rng.uniform(5, 80), 2),
                "B": rng.choice([3.0, 4.5, 6.0]), "T": [round(rng.uniform(-5, 5), 3) for _ in range(6)],
                "months": [rng.randint(1, 40) for _ in range(3)]}
    if k == "bhe":
        return {"k": k, "inp": world.draw_inputs(rng), "m": [round(rng.uniform(0.15, 0.7), 3) for _ in range(2)],
                "radial": rng.random() < 0.3}
    if k == "lib":
        s = world.draw_spec(rng, curves=rng.choice([3, 5]))
        return {"k": k, "spec": s, "q": [round(rng.uniform(0.02, 0.12), 4) for _ in range(4)]}
    if k == "design":
        d = world.draw_design(rng)
        d["inp"]["months"] = 12
        return {"k": k, "d": d, "size": rng.random() < 0.5, "frac": round(rng.uniform(0.5, 1.5), 3)}
    s = world.draw_spec(rng)
    s["inp"]["months"] = rng.choice([12, 12, 24])
    seq = [{"op": "simulate", "method": "hybrid"}]
    for _ in range(rng.randint(1, 3)):
        r = rng.random()
        if r < 0.1:
            seq.append({"op": "simulate", "method": "hourly"})
        elif r < 0.35 and s["curves"] > 1:
            seq.append({"op": "size", "method": "hybrid"})
        elif r < 0.5:
            seq.append({"op": "gfun"})
        else:
            seq.append({"op": rng.choice(["repr", "frame", "grab", "equiv", "hourlyrep", "plot"])})
            if seq[-1]["op"] == "plot":
                seq[-1] = ops.draw_plot(rng)
            elif seq[-1]["op"] == "hourlyrep":
                seq[-1]["year"] = rng.choice([2019, 2019, 2020, 2021])
    seq += [{"op": "repr"}]
    return {"k": "ghe", "spec": s, "ops": seq}


def vary(job, rng):
    """a calculation that agrees with `job` in all but one or two inputs"""
    j = copy.deepcopy(job)
    inp = j.get("inp") or j.get("spec", {}).get("inp") or j.get("d", {}).get("inp")
    r = rng.random()
    if inp is None or (r < 0.25 and j["k"] in ("design", "ghe", "lib")):
        if j["k"] == "domain":
            key = rng.choice(["L", "W", "Bmin", "Bx", "By"])
            j[key] = round(j[key] * rng.choice([0.9, 1.1, 1.25]), 3)
        elif j["k"] == "misc":
            key = rng.choice(["units", "year", "L", "B"])
            j[key] = {"units": rng.choice(["W", "kW"]), "year": rng.choice([2019, 2020]), "L": round(j["L"] * 1.1, 2),
                      "B": j["B"] + 0.5}[key]
        elif j["k"] == "polygon":
            j["Bx"] = j["Bx"] + 1.0
            if rng.random() < 0.5 and j["no"]:
                j["no"] = None
        elif j["k"] == "design":
            g = j["d"]["geo"]
            key = rng.choice(sorted(g))
            g[key] = round(g[key] * rng.choice([0.9, 1.1]), 3)
            if rng.random() < 0.4:
                j["d"]["routine"] = rng.choice(world.ROUTINES)
        else:
            f = j["spec"]["field"]
            key = rng.choice(["nx", "ny", "B"])
            f[key] = f[key] + 1
        return j
    for _ in range(rng.choice([1, 1, 2])):
        key = rng.choice(["bhe", "soil_k", "soil_c", "ugt", "grout_k", "rb", "D", "H", "minH", "maxH", "months", "maxE",
                          "V", "fluid", "loads", "eps", "pipe_k", "pipe_c", "grout_c", "shank", "grout_k", "pipe_k"])
        if key == "bhe":
            inp[key] = rng.choice([x for x in world.KINDS if x != inp[key]])
        elif key == "fluid":
            inp[key] = "MPG" if inp[key] == "Water" else "Water"
        elif key == "loads":
            inp[key] = dict(inp[key], **{rng.choice(["cool", "heat"]): round(rng.uniform(0.3, 1.5), 3)})
        elif key == "eps":
            inp[key] = 3.0e-4 if inp.get(key) != 3.0e-4 else 1.0e-6
        elif key in ("pipe_k", "pipe_c", "grout_c", "shank"):
            base = {"pipe_k": 0.4, "pipe_c": 1542000.0, "grout_c": 3901000.0, "shank": 0.0323}[key]
            inp[key] = round(inp.get(key, base) * rng.choice([0.9, 1.08]), 5)
        elif key == "months":
            inp[key] = 24 if inp[key] == 12 else 12
        elif key == "H":
            inp[key] = rng.choice([85.0, 100.0, 115.0])
        elif key in ("minH", "maxH", "maxE"):
            inp[key] = inp[key] + 2.0
        else:
            inp[key] = round(inp[key] * rng.choice([0.93, 1.07]), 4)
    return j


# -- performing ---------------------------------------------------------------------------
def perform(job, where):
    """-> ["ok", answer] | ["raised", class]; writes only below `where`"""
    return ops.outcome(lambda: globals()["do_" + job["k"]](job, where))


def do_domain(j, where):
    D, C = dt.domains, dt.coordinates
    L, W, b, x, y = j["L"], j["W"], j["Bmin"], j["Bx"], j["By"]
    n1, n2 = j["n"]
    f = j["f"]
    if f == "near":
        r = D.square_and_near_square(1, dt.utilities.number_of_boreholes(min(L, 30), b), b)
    elif f == "rect":
        r = D.rectangular(L, W, b, x)
    elif f == "bi":
        r = D.bi_rectangular(L, W, b, x, y)
    elif f == "nested":
        r = D.bi_rectangle_nested(L, W, b, x, y)
    elif f == "zoned":
        r = D.zoned_rectangle_domain(L, W, n1, n2)
    elif f == "zonednested":
        r = D.bi_rectangle_zoned_nested(L, W, b, x, y)
    else:
        r = [C.rectangle(n1, n2, b, x), C.open_rectangle(n1, n2, b, x), C.L_shape(n1, n2, b, x),
             C.U_shape(n1, n2, b, x), C.C_shape(n1, n2, b, x, 1), C.lop_U(n1, n2, b, x, n2 - 1),
             C.zoned_rectangle(n1, n2, b, x, 1, 1), C.transpose_coordinates(C.rectangle(n1, n2, b, x))]
    return compare.plain(r)


def do_polygon(j, where):
    F = dt.feature_recognition
    out = {"area": float(dt.utilities.polygonal_area(j["prop"]))}
    grid = dt.coordinates.rectangle(9, 7, 5.0, 5.0)
    g = j.get("grid", "plain")
    if g == "double":                   # some locations listed twice
        grid = grid + grid[::3] + grid[1::5]
    elif g == "close":                  # locations that almost coincide
        grid = [p for x, y in grid for p in ((x, y), (x + 1e-6, y))]
    elif g == "negative":
        grid = [(x - 6.0, y - 4.0) for x, y in grid]
    elif g == "L":
        grid = dt.coordinates.L_shape(9, 7, 5.0, 5.0) + dt.coordinates.U_shape(9, 7, 5.0, 5.0)
    for ri in (True, False):
        for kc in (True, False):
            out["cut%d%d" % (ri, kc)] = ops.outcome(lambda: compare.plain(F.remove_cutout(
                grid, boundary=j["no"] or j["prop"], remove_inside=ri, keep_contour=kc)))
    out["dom"] = ops.outcome(lambda: compare.plain(dt.domains.polygonal_land_constraint(
        j["prop"], j["Bmin"], j["Bx"], j["By"], building_description=j["no"])))
    return out


def do_misc(j, where):
    U, G, D = dt.utilities, plat.ground_loads, dt.domains
    out = []

    def add(fn):
        out.append(ops.outcome(lambda: compare.plain(fn())))
    add(lambda: [list(x[:3]) + [sum(x), max(x), len(x), min(x)] for x in
                 G.create_synthetic_doubling_load_profile(units=j["units"], year=j["year"])])
    h = [0.0] * 1500
    add(lambda: [G.synthetic_load_function(h, 2.0, 5.0, 3 + j["hours"][0] % 6, j["hours"][1] % 25, 744, 672), h[744:1416:5]])
    add(lambda: [sum(x) for x in G.HybridLoad.split_heat_and_cool([1000.0 * t for t in j["T"]], units=j["units"])])
    add(lambda: [[G.monthdays(m), G.firstmonthhour(m), G.lastmonthhour(m), G.number_to_month((m - 1) % 12 + 1), G.monthindex("May")]
                 for m in j["months"]])
    n = U.number_of_boreholes(j["L"], j["B"])
    add(lambda: [n, U.length_of_side(n, j["B"]), U.spacing_along_length(j["L"], n), U.Eskilson_log_times(),
                 U.make_rectangle_perimeter(j["L"], j["B"], origin=(1, 2)), U.compute_mpe(j["T"], j["T"][::-1])])
    add(lambda: list(D.verify_excess(j["T"])))
    add(lambda: D.reorder_domain([dt.coordinates.rectangle(a + 1, b + 2, j["B"], j["B"])
                                  for a, b in ((2, 1), (0, 0), (3, 3), (1, 1))]))
    add(lambda: dt.coordinates.transpose_coordinates(dt.coordinates.L_shape(4, 3, j["B"], j["B"])))
    return out


def do_bhe(j, where):
    b = world.make_bhe(j["inp"])
    out = [ops.bhe_numbers(b)]
    for m in j["m"]:
        out.append(float(b.update_thermal_resistance(m_flow_borehole=m)))
    e = plat.equivalance.compute_equivalent(b)
    out.append(ops.eq_numbers(e))
    if j["radial"]:
        rn = plat.radial_numerical_borehole.RadialNumericalBH(e)
        a = rn.calc_sts_g_functions(e)
        out.append([compare.plain(list(a[0])), compare.plain(list(a[1])), float(rn.t_s)])
    return out


def do_lib(j, where):
    o = world.make_inputs_no_loads(j["spec"]["inp"])
    lib = world.make_library(j["spec"]["inp"], o, j["spec"]["field"], j["spec"]["curves"])
    out = [ops.lib_numbers(lib)]
    for q in j["q"]:
        out.append(ops.outcome(lambda: compare.plain(list(lib.g_function_interpolation(q)))))
    return out


def _export(search, where, name):
    path = os.path.join(where, name)
    dt.search_routines.oak_ridge_export(search, file_name=path)
    with open(path + ".json") as f:
        text = f.read()
    return text


def do_ghe(j, where):
    ghe, o, lib = world.build(j["spec"])
    out = [compare.plain([ghe.hybrid_load.load, ghe.hybrid_load.hour]), compare.results_of(ghe)]
    for op in j["ops"]:
        out.append(ops.outcome(lambda: ops.apply(ghe, op)))
    out.append(compare.results_of(ghe))
    out.append(_export(files.FakeSearch(ghe, ghe.GFunction.bore_locations), where, "ghe"))
    return out


def do_design(j, where):
    d = copy.deepcopy(j["d"])
    o = world.design_inputs(d)
    des = world.make_design(d, o)
    out = {"domain": compare.plain(getattr(des, "coordinates_domain_nested", None) or des.coordinates_domain)}
    b = des.find_design()
    out["search"] = {"key": compare.plain(b.selection_key), "sel": compare.plain(b.selected_coordinates),
                     "T": sorted([int(k), float(v)] for k, v in b.calculated_temperatures.items()),
                     "H": float(b.ghe.bhe.b.H)}
    if j["size"]:
        b.ghe.compute_g_functions()
        b.ghe.size(method="hybrid")
    else:
        b.ghe.simulate(method="hybrid")
    out["ghe"] = compare.results_of(b.ghe)
    out["export"] = _export(b, where, "design")
    return out


def do_load(j, where):
    from sim import facts
    return facts.load(j["kind"], j["path"], j["deep"])


def main():
    where = sys.argv[1]
    from sim import clock, core
    spec = json.load(sys.stdin)
    if spec.get("memo"):
        world.memo_short_time_steps()
        world.memo_peak_simulations()
    if spec.get("clock"):
        clock.set_source(clock.Clock(core.rng_for("clock", spec["clock"]), start=spec["clock"] * 1e5))
    if spec.get("env_log"):
        watch_environ()
    out = [perform(j, where) for j in spec["jobs"]]
    out += [perform(j, where) for j in spec.get("extra", [])]
    sys.__stdout__.write("\n@@ANSWER@@" + json.dumps({"answers": out, "env_read": sorted(env_read)}))


# -- which environment variables ghedt code looks at -----------------------------------------
env_read = set()


def watch_environ():
    from sim import env
    cls = type(os.environ)
    if getattr(cls, "watched", False):
        return
    cls.watched = True
    root = os.path.realpath(env.REPO) + os.sep
    orig_get, orig_has = cls.__getitem__, cls.__contains__ if "__contains__" in vars(cls) else None

    def note(key):
        f = sys._getframe(2)
        for _ in range(4):
            if f is None:
                return
            fn = f.f_code.co_filename
            if fn.startswith(root) or fn.startswith(env.REPO + os.sep):
                env_read.add(key)
                return
            f = f.f_back

    def __getitem__(self, key):
        note(key)
        return orig_get(self, key)

    def __contains__(self, key):
        note(key)
        if orig_has is not None:
            return orig_has(self, key)
        try:
            orig_get(self, key)
            return True
        except KeyError:
            return False
    cls.__getitem__, cls.__contains__ = __getitem__, __contains__


if __name__ == "__main__":
    main()
