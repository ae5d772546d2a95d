"""C05: output directories are created safely by any number of callers."""
import json
import os

from sim import core, files, sched, vfs, world
from sim.base import BaseCheck

_figs = {"on": False}
OLD = b"IMG990"
EXISTS = ["none", "none", "none", "leaf", "parent", "content", "old", "file", "file-parent", "symlink", "dangling"]


def patch_figures():
    """Rendering an image is replaced by writing a small file of that name."""
    if _figs["on"]:
        return
    _figs["on"] = True
    from matplotlib.figure import Figure
    real_save, real_tight = Figure.savefig, Figure.tight_layout

    def savefig(self, fname, *a, **k):
        if not isinstance(fname, (str, os.PathLike)):
            return real_save(self, fname, *a, **k)
        fname = os.fspath(fname)
        if not os.path.splitext(fname)[1]:
            fname += ".png"
        pts = 0
        for ax in self.axes:
            for col in ax.collections:
                pts += len(col.get_offsets())
        with open(fname, "wb") as f:
            f.write(b"IMG%d" % pts)

    def tight_layout(self, *a, **k):
        return None
    Figure.savefig, Figure.tight_layout = savefig, tight_layout


class Check(BaseCheck):
    quick_runs = 3000
    thorough_runs = 80000
    quick_wall = 150
    rule = ("One run = 1-6 callers asking for the same, nested or sibling output folders (create_if_not, or "
            "visualize_domain with a generated family of fields), interleaved at every file operation, over a "
            "seeded initial tree, with mkdir/image-write faults, interrupts and crashes of some callers. "
            "Non-trivial: preempted or faulted.")
    state_note = "distinct (initial tree, interleaving of file operations, faults) reached"
    real = ["ghedt.utilities.create_if_not", "ghedt.domains.visualize_domain", "os.makedirs", "matplotlib figures"]
    stubs = ["disk below the os module (vfs)", "image rendering (Figure.savefig writes a small file)",
             "callers are threads under a baton scheduler"]
    assumptions = ["folder names are relative or absolute POSIX paths without '..'"]

    def setup(self):
        patch_figures()
        from matplotlib.figure import Figure        # fonts etc. once, before forking
        import ghedt as dt
        with files.Scratch() as d:
            try:
                dt.domains.visualize_domain([[[0.0, 0.0]]], os.path.join(d, "w"))
            except Exception:
                pass

    def generate(self, rng, i, tier):
        n = rng.choice([1, 2, 2, 2, 3, 3, 4, 6])
        names = rng.choice([["out"], ["out", "out"], ["out", "out/plots"], ["out/a", "out/b"], ["a/b/c", "a/b", "a"],
                            ["a/b/c", "a/b/d/e"], ["out/", "out"], ["a b", "\u00fc"]])
        callers = []
        for k in range(n):
            ops = []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                if rng.random() < 0.7:
                    ops.append({"do": "dir", "name": rng.choice(names)})
                else:
                    ops.append({"do": "plot", "name": rng.choice(names), "fields": rng.choice([0, 1, 1, 2, 2, 3, 4]),
                                "nx": rng.randint(1, 3)})
            f = [files.draw_fault(rng, rng.choice(["mkdir", "mkdir", None, "open-w", "write", "close-w"]))
                 for _ in range(rng.choice([1, 1, 2]))] if rng.random() < 0.3 else []
            callers.append({"ops": ops, "faults": f})
        r = rng.random()
        pol = {"kind": "random", "p": rng.choice([0.1, 0.3, 0.5, 0.8])} if r < 0.7 else \
            {"kind": "points", "at": sorted(round(rng.random(), 4) for _ in range(rng.choice([1, 2, 3])))}
        return {"callers": callers, "exists": rng.choice(EXISTS), "first": names[0], "sched": rng.randint(0, 10**9),
                "policy": pol, "rel": rng.random() < 0.3, "mode": rng.choice([None, None, None, "ro"])}

    def tree(self, root, c):
        p = os.path.join(root, c["first"].rstrip("/"))
        e = c["exists"]
        if e in ("leaf", "content"):
            os.makedirs(p)
        if e == "content":
            with open(os.path.join(p, "keep.txt"), "w") as f:
                f.write("mine")
            with open(os.path.join(p, "000.txt"), "w") as f:
                f.write("mine too")
            os.makedirs(os.path.join(p, "sub", "x"))
            with open(os.path.join(p, "sub", "x", "001.png"), "wb") as f:
                f.write(b"other")
        elif e == "old":            # images of an earlier family
            os.makedirs(p)
            for k in range(5):
                for n in ("%03d.png" % k, "%d.png" % k):
                    with open(os.path.join(p, n), "wb") as f:
                        f.write(OLD)
        elif e == "parent":
            os.makedirs(os.path.dirname(p), exist_ok=True)
        elif e == "file":
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write("in the way")
        elif e == "file-parent" and "/" in c["first"].rstrip("/"):
            with open(os.path.join(root, c["first"].split("/")[0]), "w") as f:
                f.write("in the way")
        elif e == "symlink":
            os.makedirs(os.path.join(root, "store"))
            os.makedirs(os.path.dirname(p), exist_ok=True)
            os.symlink(os.path.join(root, "store"), p)
        elif e == "dangling":
            os.makedirs(os.path.dirname(p), exist_ok=True)
            os.symlink(os.path.join(root, "nowhere"), p)

    def fields(self, op):
        import ghedt as dt
        return [dt.coordinates.rectangle(op["nx"] + j, 2, 5.0, 5.0) for j in range(op["fields"])]

    def run(self, c, root, policy, faults):
        import ghedt as dt
        self.tree(root, c)
        disk = vfs.Disk(root)
        disk.seed = c["sched"]
        before = disk.snapshot()
        s = sched.Scheduler(c["sched"], policy)
        hist = []
        if c["rel"]:
            os.chdir(root)

        def caller(k, cl, pr):
            def body():
                for op in cl["ops"]:
                    sched.point("op")
                    p = op["name"] if c["rel"] else os.path.join(root, op["name"])
                    full = os.path.join(root, op["name"])
                    rec = {"caller": k, "op": op, "out": None, "nd": len(pr.delivered)}
                    hist.append(rec)
                    try:
                        if op["do"] == "dir":
                            dt.utilities.create_if_not(p)
                        else:
                            dt.domains.visualize_domain(self.fields(op), p)
                        rec["out"] = "ok"
                    except vfs.SimCrash:
                        rec["out"], rec["hit"] = "crash", True
                        return
                    except sched.Stop:
                        raise
                    except BaseException as e:
                        rec["out"] = "%s: %s" % (type(e).__name__, str(e)[:120])
                    rec["hit"] = len(pr.delivered) > rec["nd"]
                    rec["faults"] = pr.delivered[rec["nd"]:]
                    saved, vfs.SIM = vfs.SIM, None
                    rec["isdir"] = os.path.isdir(full)
                    if op["do"] == "plot" and rec["out"] == "ok" and rec["isdir"]:
                        rec["images"] = self.images(full, op)
                    vfs.SIM = saved
            return body
        procs = []
        for k, cl in enumerate(c["callers"]):
            pr = vfs.Proc("u%d" % k)
            pr.plan = [dict(f) for f in faults.get(k, [])]
            procs.append(pr)
            s.add("u%d" % k, caller(k, cl, pr), pr)
        with vfs.active(disk):
            s.run()
        after = disk.snapshot()
        if c["rel"]:
            os.chdir("/")
        return s, hist, procs, before, after, disk

    def images(self, full, op):
        """which field numbers have no image of their own"""
        files_ = sorted(f for f in os.listdir(full) if f.endswith(".png"))
        return files_

    def execute(self, c, ctx):
        import matplotlib.pyplot as plt
        with files.Scratch() as r0:
            s0, h0, p0, _, _, _ = self.run(c, r0, {"kind": "serial"}, {})
        faults = {k: files.resolve_faults(cl["faults"], p0[k].oplog) for k, cl in enumerate(c["callers"])}
        with files.Scratch() as r1:
            s, hist, procs, before, after, disk = self.run(c, r1, dict(c["policy"], total=s0.points), faults)
            blocked = c["exists"] in ("file", "file-parent", "dangling")
            for pr in procs:
                for f in pr.delivered:
                    ctx.fault("%s@%s" % (f["what"], f["at"]))
            if s.switches:
                ctx.nontrivial = True
                ctx.stat("preemptions", s.switches)
            ctx.sim_time += s.points
            ctx.state([c["exists"]] + [x[:3] for x in disk.log])
            for x in disk.log[:150]:
                ctx.note(*x)
            for t_ in s.tasks:
                if t_.error is not None:
                    raise RuntimeError("caller ended with %r" % (t_.error,))
            show = lambda: "; ".join("u%d %s %s -> %s" % (r["caller"], r["op"]["do"], r["op"]["name"], r["out"])
                                     for r in hist) + " (initially: %s)" % c["exists"]
            plotted = {}
            for r in hist:
                name = r["op"]["name"]
                if r["out"] == "ok":
                    if not r["isdir"]:
                        ctx.fail("not-created", "a call returned but there is no directory %r: %s" % (name, show()))
                        return
                    if [f for f in r["faults"] if f["what"] in vfs.HARD and f["at"] in ("write", "open-w", "close-w")]:
                        ctx.fail("swallowed-error", "an image could not be written but the call returned: " + show())
                        return
                    if r["op"]["do"] == "plot":
                        n = r["op"]["fields"]
                        # images of this call or of an overlapping one with more fields
                        if c["exists"] == "old" and name.rstrip("/") == c["first"].rstrip("/"):
                            plotted.setdefault(name.rstrip("/"), []).append(r)
                            continue
                        if len(r["images"]) < n:
                            ctx.fail("images-missing", "%d fields but images %s: %s" % (n, r["images"], show()))
                            return
                        plotted.setdefault(name.rstrip("/"), []).append(r)
                elif r["out"] != "crash" and not r["hit"] and not blocked:
                    ctx.fail("spurious-failure", "a caller that met no fault failed: " + show())
                    return
            # exactly one image per field in folders nothing else went into
            for name, rs in plotted.items():
                if c["exists"] in ("content", "symlink", "dangling"):
                    continue
                rel = name + "/"
                got = sorted(x[len(rel):] for x in after if x.startswith(rel) and "/" not in x[len(rel):]
                             and after[x] not in (None, OLD) and x.endswith(".png"))
                all_plots = [r for r in hist if r["op"]["do"] == "plot" and r["op"]["name"].rstrip("/") == name]
                want = max(r["op"]["fields"] for r in all_plots)
                ok_ = max(r["op"]["fields"] for r in rs)
                if not (ok_ <= len(got) <= want):
                    ctx.fail("image-count", "%d images %s for %d fields: %s" % (len(got), got, ok_, show()))
                    return
                if len(rs) == 1 and len(all_plots) == 1:
                    sizes = sorted((2 * (rs[0]["op"]["nx"] + j)) for j in range(rs[0]["op"]["fields"]))
                    have = sorted(int(after[rel + g][3:] or 0) for g in got)
                    if have != sizes:
                        ctx.fail("image-count", "images show %s boreholes, fields have %s: %s" % (have, sizes, show()))
                        return
            for rel, data in before.items():
                if after.get(rel, b"<gone>") != data and not (rel.endswith(".png") and "/x/" not in rel):
                    ctx.fail("content-damaged", "existing %r changed: %s" % (rel, show()))
                    return
                if data == OLD and rel not in after and not any(pr.delivered for pr in procs):
                    ctx.fail("content-damaged", "existing %r was removed: %s" % (rel, show()))
                    return
            # once faults stop, everybody succeeds
            if not blocked:
                import ghedt as dt
                for r in hist:
                    try:
                        dt.utilities.create_if_not(os.path.join(r1, r["op"]["name"]))
                    except BaseException as e:
                        ctx.fail("no-recovery", "afterwards %r cannot be created (%r): %s" % (r["op"]["name"], e, show()))
                        return
            if plt.get_fignums():
                ctx.stat("figures_left_open")

    def shrink(self, c):
        n = len(c["callers"])
        for k in range(n):
            if n > 1:
                d = json.loads(json.dumps(c))
                del d["callers"][k]
                yield d
        for k in range(n):
            for j in range(len(c["callers"][k]["ops"])):
                d = json.loads(json.dumps(c))
                del d["callers"][k]["ops"][j]
                yield d
            if c["callers"][k]["faults"]:
                d = json.loads(json.dumps(c))
                d["callers"][k]["faults"] = []
                yield d
        for key, v in (("exists", "none"), ("rel", False)):
            if c[key] != v:
                yield dict(c, **{key: v})
        if c["policy"]["kind"] == "random":
            for a in range(8):
                yield dict(c, policy={"kind": "points", "at": [round((a + 0.5) / 8, 3)]})
