"""C04: concurrent saves, loads and exports of one path are atomic."""
import json
import os

from sim import clock, compare, core, files, linear, sched, vfs, world
from sim.base import BaseCheck

ABSENT = "absent"


class Check(BaseCheck):
    quick_runs = 3000
    thorough_runs = 80000
    quick_wall = 150
    rule = ("One run = 2-6 simulated clients, each performing 1-4 saves, loads or exports on 1-2 shared paths, "
            "interleaved at every file operation by a seeded scheduler; some clients meet an I/O fault, an "
            "interrupt or a crash. Non-trivial: at least one preemption inside an operation.")
    state_note = "distinct interleavings (order of file operations over clients) reached"
    real = ["ghedt.utilities savers and loaders", "ghedt.search_routines.oak_ridge_export", "json", "pickle"]
    stubs = ["disk below the io stack (vfs)", "long-time g-function solver", "clients are threads under a baton scheduler"]
    assumptions = ["clients of one directory share one kernel view (no network file system)"]

    def setup(self):
        files.prebuild(2)

    def generate(self, rng, i, tier):
        n = rng.choice([2, 2, 2, 3, 3, 4, 5, 6])
        kinds = rng.choice([["json"], ["json"], ["obj"], ["json", "export"], ["export"]])
        paths = [0] if rng.random() < 0.75 else [0, 1]
        v = 0
        clients = []
        for k in range(n):
            ops = []
            reader = rng.random() < 0.4
            for _ in range(rng.choice([1, 1, 2, 3, 4])):
                v += 1
                if rng.random() < (0.85 if reader else 0.25):
                    ops.append({"do": "load", "path": rng.choice(paths)})
                else:
                    ops.append({"do": "save", "path": rng.choice(paths), "version": v, "kind": rng.choice(kinds)})
            f = []
            if rng.random() < 0.22:
                f = [files.draw_fault(rng)]
            clients.append({"ops": ops, "faults": f})
        r = rng.random()
        pol = {"kind": "random", "p": rng.choice([0.05, 0.15, 0.3, 0.5, 0.8])} if r < 0.7 else \
            {"kind": "points", "at": sorted(round(rng.random(), 4) for _ in range(rng.choice([1, 2, 3])))}
        return {"clients": clients, "obj": "obj" in kinds, "initial": rng.random() < 0.7,
                "sched": rng.randint(0, 10**9), "policy": pol, "pad": rng.choice([0, 3, 400, 400, 2500]),
                "design": world.draw_design(rng), "ghe": rng.randint(0, 1), "clock": rng.random() < 0.5,
                "name": rng.choice(files.NAMES[:6])}

    def payload(self, c, op):
        v = op["version"]
        if c["obj"]:
            return files.tiny_design(dict(c["design"], nload=max(5, c["pad"]), version=v))
        if op["kind"] == "export":
            ghe, _ = files.prebuilt(c["ghe"])
            return files.FakeSearch(ghe, [[0.0, 0.0]] * v)
        return {"version": v, "pad": [float(v)] * c["pad"], "end": v}

    def identify(self, c, x):
        """which version a loaded value is, or None when it is none"""
        try:
            if c["obj"]:
                loads = x.hourly_extraction_ground_loads
                for v, want in self.known.items():
                    if loads == want:
                        return v
                return None
            if "g_function_pairs" in x:
                v = x["number_of_boreholes"]
                want = self.known.get(("e", v))
                if want is None:
                    ref = {k: w for k, w in x.items() if k != "number_of_boreholes"}
                    return v if self.export_ref(c) == compare.plain(ref) else None
                return v
            v = x["version"]
            return v if x == {"version": v, "pad": [float(v)] * c["pad"], "end": v} else None
        except Exception:
            return None

    def export_ref(self, c):
        if self._ref is None:
            ghe, _ = files.prebuilt(c["ghe"])
            with files.Scratch() as d:
                files.save_export(os.path.join(d, "ref"), files.FakeSearch(ghe, [[0.0, 0.0]]))
                x = files.load_json(os.path.join(d, "ref.json"))
            x.pop("number_of_boreholes")
            self._ref = compare.plain(x)
        return self._ref

    def run(self, c, root, policy, faults, ctx=None):
        ext = ".obj" if c["obj"] else ".json"
        load = files.load_obj if c["obj"] else files.load_json
        bases = [os.path.join(root, c["name"]), os.path.join(root, c["name"] + "_b")]
        os.makedirs(os.path.dirname(bases[0]), exist_ok=True)
        if c["initial"]:
            for b in bases:
                x = self.payload(c, {"version": 1000, "kind": "json"})
                (files.save_obj if c["obj"] else files.save_json)(b, x)
        disk = vfs.Disk(root)
        disk.seed = c["sched"]
        s = sched.Scheduler(c["sched"], policy)
        hist = []
        tick = [0]

        def now():
            tick[0] += 1
            return tick[0]

        payloads = {}
        for k, cl in enumerate(c["clients"]):
            for op in cl["ops"]:
                if op["do"] == "save":
                    payloads[op["version"]] = self.payload(c, op)

        def client(k, cl, pr):
            def body():
                for op in cl["ops"]:
                    sched.point("op")
                    b = bases[op["path"]]
                    rec = {"client": k, "path": op["path"], "kind": "r" if op["do"] == "load" else "w",
                           "start": now(), "end": None, "val": op.get("version"), "out": None,
                           "nd": len(pr.delivered)}
                    hist.append(rec)
                    try:
                        if op["do"] == "load":
                            x = load(b + ext)
                            rec["end"] = now()
                            rec["val"] = self.identify(c, x)
                            rec["out"] = "ok"
                        else:
                            x = payloads[op["version"]]
                            if op["kind"] == "export" and not c["obj"]:
                                files.save_export(b, x)
                            elif c["obj"]:
                                files.save_obj(b, x)
                            else:
                                files.save_json(b, x)
                            rec["end"] = now()
                            rec["out"] = "ok"
                    except vfs.SimCrash:
                        rec["out"] = "crash"
                        rec["end"] = now()
                        rec["hit"] = True
                        return
                    except sched.Stop:
                        raise
                    except BaseException as e:
                        rec["end"] = now()
                        rec["out"] = "%s: %s" % (type(e).__name__, str(e)[:100])
                        rec["absent"] = isinstance(e, FileNotFoundError)
                    rec["hit"] = len(pr.delivered) > rec["nd"]
            return body
        procs = []
        for k, cl in enumerate(c["clients"]):
            pr = vfs.Proc("c%d" % k)
            pr.plan = [dict(f) for f in faults.get(k, [])]
            procs.append(pr)
            s.add("c%d" % k, client(k, cl, pr), pr)
        with vfs.active(disk):
            if c["clock"]:
                clock.set_source(clock.Clock(core.rng_for("clk", c["sched"]), fixed=1e-4))
            try:
                s.run()
            finally:
                clock.set_source(None)
        final = []
        for p, b in enumerate(bases):
            if not os.path.exists(b + ext):
                final.append(ABSENT)
                continue
            try:
                final.append(self.identify(c, load(b + ext)))
            except BaseException as e:
                final.append("unreadable: %r" % (e,))
        names = set()
        for d, _, fs in os.walk(root):
            names |= {os.path.relpath(os.path.join(d, f), root) for f in fs}
        ok = {os.path.relpath(b + ext, root) for b in bases}
        return s, hist, procs, final, sorted(names - ok), tick[0], disk

    def execute(self, c, ctx):
        self._ref = None
        self.known = {}
        if c["obj"]:
            for v in [1000] + [op["version"] for cl in c["clients"] for op in cl["ops"] if op["do"] == "save"]:
                self.known[v] = list(self.payload(c, {"version": v}).hourly_extraction_ground_loads)
        elif any(op.get("kind") == "export" for cl in c["clients"] for op in cl["ops"]):
            self.export_ref(c)
        with files.Scratch() as r0:
            s0, h0, p0, f0, stray0, _, _ = self.run(c, r0, {"kind": "serial"}, {})
            if any(r["out"] != "ok" and not r.get("absent") for r in h0):
                raise core.Skip("serial run failed: %s" % [r["out"] for r in h0 if r["out"] != "ok"][0][:60])
        faults = {k: files.resolve_faults(cl["faults"], p0[k].oplog) for k, cl in enumerate(c["clients"])}
        policy = dict(c["policy"], total=s0.points)
        with files.Scratch() as r1:
            s, hist, procs, final, stray, t, disk = self.run(c, r1, policy, faults)
        for pr in procs:
            for f in pr.delivered:
                ctx.fault("%s@%s" % (f["what"], f["at"]))
        if s.switches:
            ctx.nontrivial = True
            ctx.stat("preemptions", s.switches)
        ctx.sim_time += s.points
        ctx.state([(a, k) for a, k, _ in (x[:3] for x in disk.log)])
        for x in disk.log[:150]:
            ctx.note(*[str(y).rsplit("/", 1)[-1] for y in x])
        for t_ in s.tasks:
            if t_.error is not None:
                raise RuntimeError("client ended with %r" % (t_.error,))
        show = lambda rs: "; ".join("c%d %s v%s [%s,%s] %s" % (r["client"], r["kind"], r["val"], r["start"], r["end"],
                                                                r["out"]) for r in rs)
        for p in (0, 1):
            ops = []
            rs = [r for r in hist if r["path"] == p]
            for r in rs:
                if r["kind"] == "r":
                    if r["out"] == "ok":
                        if r["val"] is None:
                            ctx.fail("mixed-read", "a load returned no version that was ever saved: " + show([r]) +
                                     " among " + show(rs))
                            return
                        ops.append(dict(r, val=r["val"]))
                    elif r.get("absent") and not r["hit"]:
                        ops.append(dict(r, val=ABSENT))
                    elif not r["hit"]:
                        ctx.fail("load-failed", "a load that met no fault failed: %s among %s" % (show([r]), show(rs)))
                        return
                else:
                    if r["out"] == "ok":
                        ops.append(r)
                    elif not r["hit"]:
                        ctx.fail("save-failed", "a save that met no fault failed: %s among %s" % (show([r]), show(rs)))
                        return
                    else:
                        ops.append(dict(r, maybe=True))
            if isinstance(final[p], str) and final[p] != ABSENT or final[p] is None:
                ctx.fail("final-damaged", "after all clients ended the file is %s: %s" % (final[p], show(rs)))
                return
            ops.append({"kind": "r", "val": final[p], "start": t + 1, "end": t + 2, "client": 99, "out": "final"})
            ok, _ = linear.linearizable(ops, 1000 if c["initial"] else ABSENT)
            if ok is None:
                ctx.stat("linearizability_gave_up")
            elif not ok:
                ctx.fail("not-linearizable", "no order of the operations explains what was read (final version %s): %s"
                         % (final[p], show(rs)))
                return
        bad = any(pr.dead for pr in procs) or any(f["at"] == "unlink" for pr in procs for f in pr.delivered)
        if stray and not bad:
            ctx.fail("stray-file", "files left behind by saves that all ended: %s" % (stray,))
            return

    def shrink(self, c):
        n = len(c["clients"])
        for k in range(n):
            if n > 1:
                d = json.loads(json.dumps(c))
                del d["clients"][k]
                yield d
        for k in range(n):
            for j in range(len(c["clients"][k]["ops"])):
                d = json.loads(json.dumps(c))
                del d["clients"][k]["ops"][j]
                yield d
            if c["clients"][k]["faults"]:
                d = json.loads(json.dumps(c))
                d["clients"][k]["faults"] = []
                yield d
        for key, v in (("pad", 3), ("clock", False), ("name", "out")):
            if c[key] != v:
                yield dict(c, **{key: v})
        if c["policy"]["kind"] == "random":
            for a in range(8):
                yield dict(c, policy={"kind": "points", "at": [round((a + 0.5) / 8, 3)]})
        else:
            for j in range(len(c["policy"]["at"])):
                at = c["policy"]["at"]
                yield dict(c, policy={"kind": "points", "at": at[:j] + at[j + 1:]})
