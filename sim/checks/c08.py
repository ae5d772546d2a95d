"""C08: designs sharing inputs do not influence each other."""
import json

from sim import compare, core, env, inject, jobs, ops, sched, world
from sim.base import BaseCheck

import ghedt as dt
import ghedt.peak_load_analysis_tool as plat
import pygfunction as gt

TOL = 1e-9


class Pool:
    """Caller-owned objects, shared wherever their description is equal."""

    def __init__(self, c):
        self.c = c
        self.d, self.first = {}, {}

    def get(self, key, make):
        k = json.dumps(key, sort_keys=True)
        if k not in self.d:
            v = make()
            self.first[k] = self.look(k, v)         # (before anybody was handed it)
            self.d[k] = v
        return self.d[k]

    def look(self, k, v):
        return ops.lib_numbers(v) if k.startswith('["lib"') else compare.snap(v)

    def inputs(self, inp):
        s = self.c["scale"]
        o = {"V": inp["V"], "bhe_object": world.bhe_class(inp),
             "fluid": self.get(["fluid", inp["fluid"]], lambda: ops.fluid_of(inp["fluid"])),
             "borehole": self.get(["bore", inp["H"], inp["D"], inp["rb"]],
                                  lambda: gt.boreholes.Borehole(inp["H"], inp["D"], inp["rb"], 0.0, 0.0)),
             "pipe": self.get(["pipe", world.pipe_key(inp)], lambda: world.make_pipe(inp)),
             "grout": self.get(["grout", inp["grout_k"], inp.get("grout_c")], lambda: world.make_grout(inp)),
             "soil": self.get(["soil", inp["soil_k"], inp["soil_c"], inp["ugt"]],
                              lambda: plat.media.Soil(inp["soil_k"], inp["soil_c"], inp["ugt"])),
             "sim_params": self.get(["sp", inp["months"], inp["maxE"], inp["minE"], inp["maxH"], inp["minH"]],
                                    lambda: plat.media.SimulationParameters(1, inp["months"], inp["maxE"], inp["minE"],
                                                                            inp["maxH"], inp["minH"])),
             "loads": self.get(["loads", inp["loads"]], lambda: world.hourly_loads(inp["loads"], s))}
        return o

    def field(self):
        f = self.c["field"]
        return self.get(["field"], lambda: world.field_coords(f))

    def library(self, j):
        inp = self.c["subjects"][j]["inp"]
        return self.get(["lib", j], lambda: world.make_library(inp, self.inputs(inp), self.c["field"],
                                                               self.c["curves"], self.field()))

    def domain(self):
        f = self.c["field"]
        return self.get(["domain"], lambda: [world.field_coords(dict(f, nx=nx, ny=ny))
                                         for nx in range(1, 4) for ny in (nx, nx + 1)])

    def nested(self):
        f = self.c["field"]

        def make():
            out = []
            for ny in range(1, 4):
                row = [world.field_coords(dict(f, nx=nx, ny=ny)) for nx in range(1, 5)]
                out.append(row if ny != 2 else row[:1] + row[2:0:-1] + row[3:])     # (not sorted by the number of boreholes)
            return out
        return self.get(["nested"], make)

    def land(self, g):
        return self.get(["land", g], lambda: {
            "prop": [list(p) for p in g["prop"]], "no": g["no"] and [list(p) for p in g["no"]],
            "grid": dt.coordinates.rectangle(6, 5, 6.0, 5.5),
            "domain": [dt.coordinates.rectangle(*n, 5.0, 5.0) for n in ((2, 2), (4, 3), (1, 1), (3, 2))],
            "numbers": [5.0, 3.0, 4.0, 1.0]})

    def halves(self, inp):
        rej, ext = [], []
        for q in self.inputs(inp)["loads"]:
            rej.append(max(-q, 0.0) / 1000.0)
            ext.append(max(q, 0.0) / 1000.0)
        return self.get(["halves", inp["loads"]], lambda: {"rej": rej, "ext": ext})

    def geo(self, s):
        return self.get(["geo", s["geo"]], lambda: world.make_constraints(s))

    def snap(self):
        out = {}
        for k in sorted(self.d):
            out[k] = self.look(k, self.d[k])
        return out


# what a caller may change in its own objects between two designs: description key -> (object, attributes)
CHANGES = {"soil_k": ("soil", ["k"]), "soil_c": ("soil", ["rhoCp"]), "ugt": ("soil", ["ugt"]), "grout_k": ("grout", ["k"]),
           "rb": ("borehole", ["r_b"]), "D": ("borehole", ["D"]), "H": ("borehole", ["H"]),
           "maxE": ("sim_params", ["max_EFT_allowable"]), "minE": ("sim_params", ["min_EFT_allowable"]),
           "maxH": ("sim_params", ["max_Height"]), "minH": ("sim_params", ["min_Height"]), "loads": ("loads", None),
           "geo": ("geo", None)}


USED = {"near-square": ["B", "length"], "rectangle": ["length", "width", "B_min", "B_max_x", "B_max_x"],
        "bi-rectangle": ["length", "width", "B_min", "B_max_x", "B_max_y"],
        "bi-zoned": ["length", "width", "B_min", "B_max_x", "B_max_y"]}


def described(c, epoch):
    """the case as its descriptions read after so many changes"""
    c = json.loads(json.dumps(c))
    n = 0
    for op in c["ops"]:
        if op["op"] != "change" or n >= epoch:
            continue
        n += 1
        s = c["subjects"][op["s"]]
        if op["key"] == "geo":
            if "geo" in s:
                was = json.dumps(s["geo"], sort_keys=True)
                for x in c["subjects"]:
                    if "geo" in x and json.dumps(x["geo"], sort_keys=True) == was:
                        x["geo"][op["what"]] = round(x["geo"][op["what"]] * op["by"], 3)
            continue
        was = s["inp"][op["key"]]
        new = dict(was, cool=round(was["cool"] * op["by"], 3)) if op["key"] == "loads" else round(was * op["by"], 5)
        for x in c["subjects"]:
            if x["inp"][op["key"]] == was:
                x["inp"][op["key"]] = new
    return c


class Subject:
    def __init__(self, pool, c, k):
        self.pool, self.c, self.s = pool, c, c["subjects"][k]
        self.o = pool.inputs(self.s["inp"])
        self.obj = None
        if self.s["kind"] == "ghe":
            self.lib = pool.library(self.s["lib"])
        elif self.s["kind"] == "search":
            self.dom = pool.nested() if self.s.get("what") else pool.domain()
            if self.s.get("what") == "row":
                self.dom = self.dom[1]
        elif self.s["kind"] == "land":
            self.g = pool.land(self.s["land"])
        elif self.s["kind"] == "loads":
            self.half = pool.halves(self.s["inp"])
        elif self.s["kind"] in ("design", "fields"):
            self.geo = pool.geo(self.s)

    def perform(self, op):
        s, o = self.s, self.o
        k = op["op"]
        if k == "build":
            self.obj = None
            if s["kind"] == "ghe":
                self.obj = world.make_ghe(s["inp"], o, self.c["field"], self.lib)
                return {"pub": ops.published(self.obj), "Rb": float(self.obj.bhe.compute_effective_borehole_resistance()),
                        "load": compare.plain([self.obj.hybrid_load.load, self.obj.hybrid_load.hour])}
            if s["kind"] == "fields":
                d = dt.design.Design(o["V"], o["borehole"], o["bhe_object"], o["fluid"], o["pipe"], o["grout"],
                                     o["soil"], o["sim_params"], self.geo, o["loads"], routine=s["routine"],
                                     flow=s["flow"])
                return compare.plain(getattr(d, "coordinates_domain_nested", None) or d.coordinates_domain)
            if s["kind"] == "land":
                return self.on_land()
            if s["kind"] == "loads":
                eq = plat.equivalance.compute_equivalent(world.make_bhe(s["inp"], o))
                rn = plat.radial_numerical_borehole.RadialNumericalBH(eq)
                rn.calc_sts_g_functions(eq)
                h = plat.ground_loads.HybridLoad(self.half["rej"], self.half["ext"], eq, rn, o["sim_params"])
                a, b = plat.ground_loads.HybridLoad.split_heat_and_cool(o["loads"])
                return [repr(h), compare.plain([h.load, h.hour]), sum(a), sum(b), sum(h.rejection.hourly), len(h.rejection.hourly)]
            if s["kind"] == "bhe":
                self.obj = world.make_bhe(s["inp"], o)
                return ops.bhe_numbers(self.obj)
            if s["kind"] == "search":
                b = {"two": dt.search_routines.Bisection2D, "zoned": dt.search_routines.BisectionZD}.get(
                    s.get("what"), dt.search_routines.Bisection1D)(
                    self.dom, o["V"], o["borehole"], o["bhe_object"], o["fluid"], o["pipe"], o["grout"], o["soil"],
                    o["sim_params"], o["loads"], flow=s["flow"])
            else:
                d = dt.design.Design(o["V"], o["borehole"], o["bhe_object"], o["fluid"], o["pipe"], o["grout"],
                                     o["soil"], o["sim_params"], self.geo, o["loads"], routine=s["routine"],
                                     flow=s["flow"])
                b = d.find_design()
            self.obj = b.ghe
            return {"key": b.selection_key, "sel": compare.plain(b.selected_coordinates),
                    "T": compare.plain(b.calculated_temperatures), "H": float(b.ghe.bhe.b.H)}
        if self.obj is None:
            return self.on_land() if s["kind"] == "land" else "nothing"
        if s["kind"] == "bhe":
            if k == "equiv":
                return ops.eq_numbers(plat.equivalance.compute_equivalent(self.obj))
            if k == "flow":
                return [float(self.obj.update_thermal_resistance(m_flow_borehole=op["m"])), ops.bhe_numbers(self.obj)]
            return ops.bhe_numbers(self.obj)
        return ops.apply(self.obj, op)


    def on_land(self):
        g, F, D = self.g, dt.feature_recognition, dt.domains
        out = [ops.outcome(lambda: compare.plain(D.polygonal_land_constraint(g["prop"], 4.5, 8.0, 9.0, building_description=g["no"])))]
        for ri in (True, False):
            for kc in (True, False):
                out.append(ops.outcome(lambda: compare.plain(F.remove_cutout(g["grid"], boundary=g["no"] or g["prop"],
                                                                             remove_inside=ri, keep_contour=kc))))
        return out + [compare.plain(F.scale_coordinates(g["grid"], 2.0)), compare.plain(F.determine_largest_rectangle(g["prop"])),
                      compare.plain(D.reorder_domain(g["domain"])), compare.plain(D.verify_excess(g["numbers"])),
                      compare.plain(dt.coordinates.transpose_coordinates(g["grid"])),
                      float(dt.utilities.polygonal_area(g["prop"]))]


def change(pool, c, op, epoch):
    """the caller changes one of its objects in place; the pool knows it by its new description"""
    new = described(c, epoch)
    fresh = Pool(new)
    for was, now in zip(pool.c["subjects"], new["subjects"]):
        if op["key"] == "geo":
            if "geo" in was and was["geo"] != now["geo"]:
                vars(pool.geo(was)).update(vars(world.make_constraints(now)))
        elif was["inp"][op["key"]] != now["inp"][op["key"]]:
            name, attrs = CHANGES[op["key"]]
            v, w = pool.inputs(was["inp"])[name], fresh.inputs(now["inp"])[name]
            if attrs is None:
                v[:] = w
            else:
                for a in attrs:
                    if not hasattr(v, a):
                        return None
                    setattr(v, a, getattr(w, a))
    # objects that were not changed stay the same ones
    keep = Pool(new)
    for a, b in zip(c_inputs(pool.c), c_inputs(new)):
        was, now = pool.inputs(a), keep.inputs(b)
        for k in was:
            if k not in ("V", "bhe_object"):
                for q, obj in list(keep.d.items()):
                    if obj is now[k]:
                        keep.d[q] = was[k]
    for a, b in zip(pool.c["subjects"], new["subjects"]):
        if "geo" in a:
            was, now = pool.geo(a), keep.geo(b)
            for q, obj in list(keep.d.items()):
                if obj is now:
                    keep.d[q] = was
    if not op["forget"]:
        keep.old = pool                     # (otherwise what is no longer needed is gone)
    keep.first = keep.snap()
    return keep


def c_inputs(c):
    return [s["inp"] for s in c["subjects"]]


def twin(c, k, seq):
    """the same operations on copies of its own, nothing else ever having happened"""
    if c["memo"]:
        world.memo_short_time_steps()
    s = Subject(Pool(c), c, k)
    return [ops.outcome(lambda: s.perform(op)) for op in seq]


class Check(BaseCheck):
    quick_runs = 150
    thorough_runs = 12000
    quick_wall = 200
    rule = ("One run = 2-4 subjects (exchangers, borehole heat exchangers, searches, designs) built from one pool of "
            "caller-owned objects, shared wherever their descriptions agree, and a seeded interleaving of their "
            "operations (some interrupted; in a third of the runs the caller changes an object of its own in place and builds anew), sequentially or in 2-3 threads with seeded preemption at source lines. "
            "Each answer is compared with a twin that ran alone on its own copies in a pristine process, and every "
            "caller-owned object is compared with its snapshot after every operation (after the run in thread mode).")
    state_note = "distinct (subject kinds, operation order or preemption points) reached"
    real = ["all of ghedt's calculations and searches", "pygfunction pipes and media"]
    stubs = ["long-time g-function solver (stand-in)", "threads run under a baton scheduler",
             "in runs with searches the short-time-step solution is memoised by the numbers of the exchanger"]
    assumptions = ["the interpolation cache of a library is not part of its content (C07 decides it)"]
    shrink_keys = ["ops"]

    def generate(self, rng, i, tier):
        a, b = world.draw_inputs(rng), world.draw_inputs(rng)
        for x in (a, b):
            x["months"] = rng.choice([12, 12, 24])
            x["loads"] = dict(x["loads"])
        field = world.draw_field(rng)
        c = {"field": field, "curves": rng.choice([1, 3, 3, 5]), "subjects": [], "ops": [], "threads": 0,
             "scale": world.load_scale(field, rng.choice([2600.0, 4500.0])), "sched": rng.randint(0, 10**9)}
        lands = [{k: v for k, v in jobs.draw(rng, ["polygon"]).items() if k in ("prop", "no")} for _ in range(2)]
        n = rng.choice([2, 2, 3, 3, 4])
        cheap = rng.random() < 0.22             # candidate fields only, with many changes of the constraints
        threads = rng.random() < 0.3 and not cheap
        if threads:
            n = rng.choice([2, 2, 3])
        for j in range(n):
            inp = {k: (b[k] if rng.random() < 0.25 else a[k]) for k in a}
            r = rng.random()
            kind = "ghe" if r < 0.56 else "bhe" if r < 0.67 else "land" if r < 0.72 else "loads" if r < 0.77 else \
                "fields" if r < 0.84 else "search" if r < 0.95 or threads else "design"
            kind = "fields" if cheap else kind
            s = {"kind": kind, "inp": inp, "lib": rng.choice([0, 0, j])}
            if kind == "search":
                s["what"] = rng.choice([None, None, "row", "two", "zoned", "zoned"])
            elif kind == "land":
                s["land"] = dict(lands[0], no=rng.choice([None, lands[0]["no"]])) if rng.random() < 0.6 else lands[1]
            if kind in ("search", "design", "fields"):
                s["flow"] = rng.choice(["borehole", "system"])
                if s["flow"] == "system":
                    inp["V"] = round(inp["V"] * 6, 3)
                d = world.draw_design(rng, rng.choice(["near-square", "rectangle"] if kind != "fields" else world.ROUTINES))
                for x in c["subjects"]:
                    if "geo" in x and rng.random() < 0.5:       # the same constraints, or with one difference
                        d["geo"], d["routine"] = dict(x["geo"]), x["routine"]
                        if rng.random() < 0.5:
                            key = rng.choice(sorted(d["geo"]))
                            d["geo"][key] = round(d["geo"][key] * rng.choice([0.9, 1.15]), 3)
                        break
                s["routine"], s["geo"] = d["routine"], d["geo"]
            c["subjects"].append(s)
        c["memo"] = any(s["kind"] in ("search", "design") for s in c["subjects"])
        per = []
        for j, s in enumerate(c["subjects"]):
            seq = [{"op": "build"}]
            for _ in range(rng.choice([1, 2, 2, 3]) if not threads else rng.choice([1, 2])):
                if s["kind"] in ("fields", "loads"):
                    break
                if s["kind"] == "land":
                    seq.append({"op": "build"})
                    continue
                if s["kind"] == "bhe":
                    seq.append(rng.choice([{"op": "equiv"}, {"op": "numbers"}, {"op": "flow", "m": 0.3}]))
                    continue
                r = rng.random()
                many = s["kind"] == "ghe" and c["curves"] > 1
                if r < 0.4:
                    op = {"op": "simulate", "method": "hybrid"}
                elif r < 0.44:
                    op = {"op": "simulate", "method": "hourly"}
                elif r < 0.55 and many:
                    op = {"op": "size", "method": "hybrid"}
                elif r < 0.65:
                    op = {"op": "gfun"}
                elif r < 0.72 and many:
                    op = {"op": "setH", "H": round(rng.uniform(s["inp"]["minH"], s["inp"]["maxH"]), 2)}
                elif r < 0.8:
                    op = {"op": "flow", "m": round(rng.uniform(0.2, 0.6), 3),
                          "fluid": rng.choice([None, "MPG20"]), "via": "update"}
                else:
                    op = {"op": rng.choice(["repr", "grab", "export", "equiv", "frame", "hourlyrep", "plot"])}
                    if op["op"] == "plot":          # (pyplot is not made for threads)
                        op = ops.draw_plot(rng) if not threads else {"op": "repr"}
                seq.append(op)
            if rng.random() < 0.3:
                seq.append({"op": "build"})
            per.append([dict(x, s=j) for x in seq])
        while any(per):
            j = rng.choice([k for k in range(n) if per[k]])
            op = per[j].pop(0)
            if not threads and rng.random() < 0.1:
                op["line"] = round(rng.random(), 6)
            c["ops"].append(op)
        if not threads and rng.random() < (1 if cheap else 0.35):
            for _ in range(rng.choice([3, 5]) if cheap else rng.choice([1, 1, 2])):      # the caller changes an object of its own, then builds anew
                j = rng.randrange(n)
                key = rng.choice(sorted(CHANGES) + ["loads", "loads"] + (["geo"] * (90 if cheap else 6) if "geo" in c["subjects"][j] else []))
                op = {"op": "change", "s": j, "key": key, "by": rng.choice([0.9, 1.1, 1.2]), "forget": rng.random() < 0.5}
                if key == "geo":
                    # (a factor large enough to matter, of a distance that the routine uses)
                    op["what"] = rng.choice(USED.get(c["subjects"][j].get("routine"), ["B"]))
                    op["by"] = rng.choice([0.7, 0.85, 1.15, 1.3, 1.5])
                at = rng.randint(1, len(c["ops"]))
                again = [{"op": "build", "s": q} for q in range(n) if q == j or rng.random() < 0.4]
                for a in list(again):
                    if c["subjects"][a["s"]]["kind"] == "ghe" and rng.random() < 0.5:
                        again.append({"op": "simulate", "method": "hybrid", "s": a["s"]})
                c["ops"][at:at] = [op] + again
        if threads:
            c["threads"] = n
            c["policy"] = {"kind": "points", "at": sorted(round(rng.random(), 6)
                                                          for _ in range(rng.choice([1, 2, 4, 8, 20])))}
            if rng.random() < 0.25:
                c["policy"] = {"kind": "random", "p": rng.choice([0.0005, 0.01])}
        return c

    def execute(self, c, ctx):
        with core.Zygote() as z:
            if c["memo"]:
                world.memo_short_time_steps()
            env.G["calls"] = 0
            pool = Pool(c)
            subjects = [Subject(pool, c, k) for k in range(len(c["subjects"]))]
            if c["threads"]:
                done = {0: self.threaded(c, ctx, pool, subjects)}
            else:
                done = self.sequential(c, ctx, pool, subjects)
            if done is None:
                return
            if not c["threads"]:
                pool = self.pool
            d = compare.snap_diff(pool.first, pool.snap())
            if d:
                return ctx.fail("inputs-changed", "after %s a caller-owned object has changed: %s" % (self.show(c), d))
            for epoch, k, seq in [(e, k, seq) for e in sorted(done) for k, seq in enumerate(done[e])]:
                if not seq:
                    continue
                want = z.call(twin, described(c, epoch), k, [op for op, r in seq])
                for (op, r), w in zip(seq, want):
                    d = compare.close(w, r, TOL)
                    if d:
                        return ctx.fail("influenced", "subject %d (%s): '%s' differs from that of a twin with its own copies "
                                        "(%s); operations: %s" % (k, c["subjects"][k]["kind"], op["op"], d, self.show(c)))
        ctx.nontrivial = True
        ctx.sim_time += len(c["ops"])
        if not c["threads"]:
            ctx.state(([s["kind"] for s in c["subjects"]], [(o["s"], o["op"], o.get("line")) for o in c["ops"]]))

    def show(self, c):
        return ("threads: " if c["threads"] else "") + \
            "; ".join("%d.%s%s" % (o["s"], o["op"] + (" " + o["key"] if "key" in o else ""), "(interrupted)" if "line" in o else "") for o in c["ops"])

    def sequential(self, c, ctx, pool, subjects):
        epoch = 0
        done = {0: [[] for _ in subjects]}
        dead = [False] * len(subjects)
        self.pool = pool
        for n, op in enumerate(c["ops"]):
            k = op["s"]
            if op["op"] == "change":
                epoch += 1
                done[epoch] = [[] for _ in subjects]
                dead = [True] * len(subjects)
                pool = change(pool, c, op, epoch)
                if pool is None:
                    raise core.Skip("the attribute to change does not exist")
                self.pool = pool
                subjects[:] = [Subject(pool, pool.c, j) for j in range(len(subjects))]
                ctx.stat("changes")
                ctx.note("operation", n + 1, "the caller changes", op["key"])
                continue
            if op["op"] == "build":
                dead[k] = False
            if dead[k]:
                continue
            fn = lambda: subjects[k].perform(op)
            if "line" in op:
                _, lines = core.in_fork(lambda: ops.dry_lines(fn))
                w = inject.LineWatch(inject.pick_line(op["line"], lines))
                try:
                    with w:
                        fn()
                except BaseException as e:
                    del e
                if w.struck:
                    ctx.fault("line:KeyboardInterrupt")
                    ctx.note("operation", n + 1, op["op"], "of", k, "interrupted at", w.struck)
                dead[k] = True
            else:
                r = ops.outcome(fn)
                ctx.note("operation", n + 1, op["op"], "of", k, "->", r[0])
                done[epoch][k].append((op, r))
            d = compare.snap_diff(pool.first, pool.snap())
            if d:
                ctx.fail("inputs-changed", "operation %d (%s of subject %d, %s%s) changed a caller-owned object: %s"
                         % (n + 1, op["op"], k, c["subjects"][k]["kind"], ", interrupted" if "line" in op else "", d))
                return None
        return done

    def threaded(self, c, ctx, pool, subjects):
        def run(subjects, policy, out):
            s = sched.Scheduler(c["sched"], policy, max_points=20_000_000)

            def body(k):
                def f():
                    for op in c["ops"]:
                        if op["s"] != k:
                            continue
                        try:
                            r = ["ok", subjects[k].perform(op)]
                        except Exception as e:
                            r = ["raised", type(e).__name__]
                        out[k].append((op, r))
                return f
            for k in range(len(subjects)):
                s.add("t%d" % k, body(k))
            sched.lines_on()
            try:
                s.run()
            finally:
                sched.lines_off()
            for t in s.tasks:
                if t.error is not None:
                    raise RuntimeError("thread ended with %r" % (t.error,))
            return s
        pol = dict(c["policy"])
        if pol["kind"] == "points":
            # a serial run of the same subjects in a fork tells the number of lines
            pol["total"] = core.in_fork(lambda: run(subjects, {"kind": "serial"}, [[] for _ in subjects]).points)
        out = [[] for _ in subjects]
        s = run(subjects, pol, out)
        ctx.stat("preemptions", s.switches)
        ctx.note("switches:", s.trace[:40])
        ctx.state(([x["kind"] for x in c["subjects"]], [(o["s"], o["op"]) for o in c["ops"]], s.trace[:2000]))
        ctx.sim_time += s.points
        return out

    def shrink(self, c):
        yield from core.shrink_lists(c, self.shrink_keys)
        for j, op in enumerate(c["ops"]):
            if "line" in op:
                d = json.loads(json.dumps(c))
                d["ops"][j].pop("line")
                yield d
        if c["threads"] and c["policy"]["kind"] == "points":
            at = c["policy"]["at"]
            for j in range(len(at)):
                yield dict(c, policy={"kind": "points", "at": at[:j] + at[j + 1:]})
        if c["threads"]:
            yield dict(c, threads=0)
