"""C02: a saved design or result reloads as exactly what was saved."""
import json
import os
import subprocess
import sys

from sim import compare, core, env, facts, files, inject, ops, vfs, world
from sim.base import BaseCheck

import ghedt as dt
import ghedt.peak_load_analysis_tool as plat


def memo():
    world.memo_short_time_steps()
    world.memo_peak_simulations()


def search_deep(c):
    return c["kind"] in ("design", "search") and (c["deep"] or c["kind"] == "search")


class Live:
    """the caller's live object"""

    def __init__(self, c):
        self.c, self.kind = c, c["kind"]
        self.fresh_eq = False
        if self.kind == "json":
            self.obj = files.draw_doc(core.rng_for("doc", c["seed"]))
        elif self.kind in ("design", "search"):
            o = world.design_inputs(c["d"])
            self.obj = world.make_design(c["d"], o)
            if self.kind == "search":
                self.design = self.obj
                self.obj = self.design.find_design()
        else:
            ghe, o, lib = world.build(c["spec"])
            self.obj = lib if self.kind == "lib" else ghe
            if self.kind == "ghe":
                ghe.simulate()
                self.fresh_eq = True

    @property
    def ghe(self):
        return self.obj.ghe if self.kind == "search" else self.obj

    def search_of(self):
        return self.obj if self.kind == "search" else files.FakeSearch(self.obj, self.obj.GFunction.bore_locations)

    def save(self, base):
        if self.kind == "json":
            files.save_json(base, self.obj, indent=self.c["indent"])
        else:
            files.save_obj(base, self.obj)

    def modify(self, op, obj=None):
        """one later change by the caller; harmless but visible"""
        d = obj if obj is not None else self.obj
        x = op["x"]
        w = op.get("w", int(op["sel"] * 1000))
        if self.kind == "json":
            what = w % 4
            if what == 3:                   # another text of the same length
                d["version"] = "v%05d" % int(10000 * x)
            elif what == 0:
                d["version"] = x
            elif what == 1:
                d["body"] = [x, d.get("body")]
            else:
                d["pad"] = list(d["pad"]) + [x]
            return "document"
        if self.kind == "lib":
            h = sorted(d.g_lts)[w % len(d.g_lts)]
            d.g_lts[h] = [v * (1 + 0.01 * x) for v in d.g_lts[h]]
            return "stored curve"
        if self.kind == "design":
            what = w % 9
            if what == 0:
                d.V_flow = d.V_flow * (1 + 0.2 * x)
            elif what == 1:
                d.hourly_extraction_ground_loads[w % len(d.hourly_extraction_ground_loads)] += 0.01 + x
            elif what == 2:
                d.soil.k = d.soil.k * (1 + 0.2 * x)
            elif what == 3:
                d.sim_params.max_Height += 1 + x
            elif what == 4:
                dom = getattr(d, "coordinates_domain_nested", None) or d.coordinates_domain
                dom.append(dom[-1])
            elif what == 5:
                d.borehole.D = d.borehole.D + 0.1 + x
            elif what == 6:
                d.geometric_constraints.length += 0.5 + x
            elif what == 7:
                d.grout.k = d.grout.k * (1 + 0.1 * x)
            else:
                d.hourly_extraction_ground_loads = [v * (1 + 0.1 * x) for v in d.hourly_extraction_ground_loads]
            return ["V_flow", "loads", "soil", "sim_params", "domain", "borehole", "constraints", "grout", "loads"][what]
        g = d.ghe if self.kind == "search" else d
        many = len(g.GFunction.g_lts) > 1
        what = ["H" if many else "soil", "flow", "soil", "sp", "simulate", "gfun", "size" if many else "simulate"][w % 7]
        what = op.get("what", what)
        if what == "H":
            g.bhe.b.H = g.sim_params.min_Height + x * (g.sim_params.max_Height - g.sim_params.min_Height)
        elif what == "flow":
            g.bhe.update_thermal_resistance(m_flow_borehole=0.2 + 0.4 * x)
        elif what == "soil":
            g.bhe.soil.ugt = g.bhe.soil.ugt + x
        elif what == "grout":
            g.bhe.grout.k = g.bhe.grout.k * (1 + 0.3 * x)
        elif what == "sp":
            g.sim_params.max_EFT_allowable += x
        elif what == "gfun":
            g.compute_g_functions()
        elif what == "size":
            g.size(method="hybrid")
        else:
            g.simulate(method="hybrid")
        if obj is None:
            self.fresh_eq = what in ("size", "simulate")
        return what


class Check(BaseCheck):
    quick_runs = 240
    thorough_runs = 20000
    quick_wall = 200
    rule = ("One run = one live object (JSON document, design, finished search, exchanger, g-function library) and a "
            "seeded history of modifications, searches, saves, re-saves, exports (some failing or crashing part-way "
            "through a file operation) and loads of several files; at each save its data and answers are recorded in a "
            "throw-away process, and after every load in the same process and at the end in processes that never saw the "
            "object (some separately started), each file is compared with the record of its last completed save.")
    state_note = "distinct (object kind, operation history, faults) reached"
    real = ["ghedt.utilities save and load", "ghedt.search_routines export and searches", "ghedt.design",
            "ghedt.ground_heat_exchangers", "pickle, json, a real directory; separately started interpreters"]
    stubs = ["long-time g-function solver (stand-in)", "file operations may be made to fail",
             "short-time-step solution memoised by the numbers of the exchanger in runs with searches"]
    assumptions = ["JSON documents have string keys and finite numbers"]
    shrink_keys = ["ops"]

    def generate(self, rng, i, tier):
        kind = rng.choice(["json", "design", "design", "design", "search", "ghe", "ghe", "lib"])
        c = {"kind": kind, "seed": rng.randint(0, 10**6), "indent": rng.choice([4, 4, None, 1]),
             "names": rng.sample(["out", "ghedt_input", "a.b", "run 1", "r\u00e9s"], 3), "cwd": rng.random() < 0.25,
             "deep": rng.random() < 0.3, "coarse": rng.random() < 0.4}
        if kind in ("design", "search"):
            c["d"] = world.draw_design(rng, rng.choice(["near-square", "near-square", "rectangle", "bi-rectangle", "bi-zoned"]))
            c["d"]["inp"]["months"] = 12
        elif kind in ("ghe", "lib"):
            c["spec"] = world.draw_spec(rng)
            c["spec"]["inp"]["months"] = 12
        export = kind in ("ghe", "search")
        seq = []
        for _ in range(rng.randint(2, 7)):
            r = rng.random()
            if r < 0.4:
                op = {"op": "save", "n": rng.randrange(3)}
                if rng.random() < 0.2:
                    op["fault"] = files.draw_fault(rng)
            elif r < 0.68:
                op = {"op": "modify", "sel": round(rng.random(), 5), "x": round(rng.random(), 4)}
            elif r < 0.9:
                op = {"op": "load", "n": rng.randrange(3)}
                if rng.random() < 0.5:
                    op["then"] = {"sel": round(rng.random(), 5), "x": round(rng.random(), 4)}
            elif kind == "design" and c["deep"]:
                op = {"op": "search"}
                if rng.random() < 0.4:
                    op["call"] = inject.draw(rng)
            else:
                op = {"op": "save", "n": rng.randrange(3)}
            if export and op["op"] in ("save", "load") and rng.random() < 0.5:
                op["export"] = True
            seq.append(op)
        seq.insert(rng.randrange(len(seq)), {"op": "save", "n": 0})
        if export and rng.random() < 0.45:      # exports around a change of state
            n = rng.randrange(3)
            mod = lambda what: {"op": "modify", "sel": round(rng.random(), 5), "x": round(rng.uniform(0.1, 1), 4), "what": what}
            chain = [{"op": "save", "n": n, "export": True}, mod(rng.choice(["flow", "flow", "grout", "soil"])),
                     mod(rng.choice(["gfun", "simulate", "simulate"])), {"op": "save", "n": n, "export": True}]
            if rng.random() < 0.4:
                chain.insert(3, mod(rng.choice(["gfun", "simulate"])))
            at = rng.randrange(len(seq) + 1)
            seq[at:at] = chain
        if kind == "json" and rng.random() < 0.5:   # saves of one length over each other, loaded in between
            n = rng.randrange(3)
            mod = lambda: {"op": "modify", "sel": 0.0, "x": round(rng.uniform(0.1, 1), 4), "w": 3}
            at = rng.randrange(len(seq) + 1)
            seq[at:at] = [mod(), {"op": "save", "n": n}, {"op": "load", "n": n}, mod(), {"op": "save", "n": n},
                          {"op": "load", "n": n}]
        c["ops"] = seq
        c["process"] = rng.random() < 0.08
        return c

    def execute(self, c, ctx):
        if c["kind"] == "search" or (c["kind"] == "design" and c["deep"]):
            memo()
            world.warm(lambda: facts.facts(c["kind"], Live(c).obj, c["deep"]))
        with core.Zygote() as z, files.Scratch() as top:
            try:
                live = Live(c)
            except ValueError as e:
                raise core.Skip("object not accepted: %s" % str(e)[:60])
            self.go(c, ctx, z, top, live)
        ctx.nontrivial = True
        ctx.sim_time += len(c["ops"])
        ctx.stat("kind_" + c["kind"])

    def go(self, c, ctx, z, top, live):
        kind, deep = c["kind"], c["deep"]
        ext = ".json" if kind == "json" else ".obj"
        if c["cwd"]:
            os.chdir(top)
        saved = {}            # file -> list of acceptable records (label, facts or export)
        marks, hist = [], []

        def base(op):
            n = ("x-" if op.get("export") else "") + c["names"][op["n"]]
            return (n if c["cwd"] else os.path.join(top, n)), n + (".json" if op.get("export") else ext)

        for k, op in enumerate(c["ops"]):
            name = op["op"]
            label = name + (" " + c["names"][op["n"]] if "n" in op else "") + (" (export)" if op.get("export") else "")
            if name == "modify":
                r = ops.outcome(lambda: live.modify(op))
                label += " " + str(r[1])
            elif name == "search":
                r = self.search(op, ctx, live)
            elif name == "save":
                path, file = base(op)
                if op.get("export"):
                    rec = core.in_fork(lambda: ops.outcome(lambda: facts.export_expected(live.search_of(), live.fresh_eq)))
                    fn = lambda: files.save_export(path, live.search_of())
                else:
                    rec = core.in_fork(lambda: ops.outcome(lambda: facts.facts(kind, live.obj, deep)))
                    fn = lambda: live.save(path)
                if rec[0] != "ok":
                    ctx.note(k + 1, label, "object gives no answers now:", rec[1])
                    continue
                out, f, e = self.attempt(fn, top, op.get("fault"))
                label += " -> " + out
                for x in f:
                    ctx.fault("%s@%s" % (x["what"], x["at"]))
                if c["coarse"] and os.path.isfile(os.path.join(top, file)):
                    # a file system (or clock) whose times do not tell two saves apart
                    os.utime(os.path.join(top, file), (1.0e9, 1.0e9))
                if out == "returned":
                    saved[file] = [(k + 1, rec[1])]
                elif f:
                    saved[file] = saved.get(file, [None]) + [(k + 1, rec[1])]
                else:
                    if op.get("export") and e in ("ValueError", "ZeroDivisionError", "IndexError"):
                        ctx.note(k + 1, label, e)
                        continue
                    return ctx.fail("cannot-save", "saving %s raised %s; history: %s" % (kind, e, "; ".join(hist + [label])))
            else:
                path, file = base(op)
                if file not in saved or None in saved[file]:
                    continue
                try:
                    got = files.load_json(os.path.join(top, file)) if file.endswith(".json") else \
                        files.load_obj(os.path.join(top, file))
                except Exception as e:
                    return ctx.fail("reload-differs", "loading %s raised %s: %s; history: %s"
                                    % (file, type(e).__name__, str(e)[:200], "; ".join(hist + [label])))
                if op.get("export"):
                    errs = [facts.export_wrong(r, got) for n, r in saved[file]]
                    if isinstance(got, dict) and op.get("then"):
                        got["borehole_length"] = -1.0
                else:
                    st = facts.state(kind, got)
                    errs = [compare.close(r[0], st, 0, 0) for n, r in saved[file]]
                    if op.get("then"):
                        ops.outcome(lambda: live.modify(op["then"], got))
                        label += " and change the loaded one"
                if all(errs):
                    return ctx.fail("reload-differs", "%s loaded again is not what was saved: %s; history: %s"
                                    % (file, errs[-1], "; ".join(hist + [label])))
            hist.append(label)
            ctx.note(k + 1, label)
            marks.append(label)
        # restart: everything is read by processes that never saw the live object
        for file in sorted(saved):
            recs = saved[file]
            path = os.path.join(top, file)
            if None in recs:
                if not os.path.exists(path):
                    continue
                recs = [r for r in recs if r]
            isx = file.startswith("x-")
            if isx:
                got = z.call(facts.load, "json", path, False)
                errs = [facts.export_wrong(r, got[1]) if got[0] == "ok" else str(got) for n, r in recs]
            else:
                got = z.call(facts.load, kind, path, deep)
                errs = [facts.wrong(r, got) for n, r in recs]
                if not all(errs) and c["process"]:
                    got = self.process(kind, path, deep, top)
                    ctx.stat("separate_processes")
                    if got is not None:
                        errs = [facts.wrong(json.loads(json.dumps(r)), got) for n, r in recs]
            if all(errs):
                return ctx.fail("reload-differs", "%s, last saved at step %d, reloads in a new process as something else: "
                                "%s; history: %s" % (file, recs[-1][0], errs[-1], "; ".join(hist)))
            ctx.stat("files_reloaded")
        ctx.state((kind, c.get("d", c.get("spec", {})).get("routine"), marks))

    def search(self, op, ctx, live):
        fn = lambda: live.obj.find_design()
        if "call" not in op:
            return ops.outcome(fn)
        _, s, num, cal = core.in_fork(lambda: ops.dry(fn))
        p = ops.watch_from(s, num, cal).choose(op["call"])
        if not p:
            return ["ok", None]
        w = inject.CallWatch(p)
        try:
            with w:
                fn()
        except BaseException as e:
            del e
        if w.struck:
            ctx.fault("call:" + w.struck[2])
        return ["ok", None]

    def attempt(self, fn, top, fault):
        if not fault:
            try:
                fn()
                return "returned", [], None
            except Exception as e:
                return "raised", [], type(e).__name__
        # the operation list comes from a twin in a fork, writing into a copy
        def dry():
            d = vfs.Disk(top)
            d.load_shadow()
            with files.Scratch():
                pass
            os.chdir(top)
            with vfs.active(d):
                try:
                    fn()
                except Exception:
                    pass
            return list(d.main.oplog)
        before = {n: files.read_bytes(os.path.join(top, n)) for n in os.listdir(top)
                  if os.path.isfile(os.path.join(top, n))}
        log = core.in_fork(dry)
        for n in os.listdir(top):
            p = os.path.join(top, n)
            if n not in before:
                os.unlink(p)
        for n, b in before.items():
            with open(os.path.join(top, n), "wb") as f:
                f.write(b)
        disk = vfs.Disk(top)
        disk.load_shadow()
        disk.main.plan = files.resolve_faults([fault], log)
        try:
            with vfs.active(disk):
                fn()
            out, e = "returned", None
        except vfs.SimCrash as x:
            out, e = "crashed", None
        except BaseException as x:
            out, e = "raised", type(x).__name__
            del x
        return out, list(disk.main.delivered), e

    def process(self, kind, path, deep, top):
        e = {k: os.environ[k] for k in ("PATH", "HOME", "MPLBACKEND", "MPLCONFIGDIR", "GHEDT_REPO") if k in os.environ}
        e.update(PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
                 LC_ALL="C.UTF-8")
        spec = {"jobs": [{"k": "load", "kind": kind, "path": path, "deep": deep}], "memo": True}
        r = subprocess.run([sys.executable, "-W", "ignore", os.path.join(core.VERIF, "sim", "jobs.py"), top],
                           input=json.dumps(spec), capture_output=True, text=True, env=e, cwd="/", timeout=280)
        if "@@ANSWER@@" not in r.stdout:
            raise RuntimeError("process gave no answer: %s" % (r.stdout + r.stderr)[-1500:])
        a = json.loads(r.stdout.split("@@ANSWER@@")[1])["answers"][0]
        return a[1] if a[0] == "ok" else ["load raised", a[1]]

    def shrink(self, c):
        yield from core.shrink_lists(c, self.shrink_keys)
        for k, v in (("process", False), ("deep", False), ("cwd", False), ("coarse", False)):
            if c[k] != v:
                yield dict(c, **{k: v})
        for n, op in enumerate(c["ops"]):
            for k in ("fault", "then", "export", "call"):
                if k in op:
                    x = json.loads(json.dumps(c))
                    x["ops"][n].pop(k)
                    yield x
