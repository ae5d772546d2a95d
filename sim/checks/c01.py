"""C01: a save that fails or crashes never damages the file already there."""
import os

from sim import compare, core, files, inject, vfs, world
from sim.base import BaseCheck

BAD = ["object", "set", "circular", "bytes-key", "lambda"]


class Check(BaseCheck):
    quick_runs = 2600
    thorough_runs = 60000
    quick_wall = 150
    rule = ("One run = one save (JSON document, design input file or result export) onto an absent, "
            "earlier-saved or foreign file among bystander files, with 1-3 seeded faults (I/O errors, full disk, "
            "short writes, interrupts, crashes, call-site exceptions) and 3 seeded power-loss disks; then a "
            "fault-free save. Non-trivial: at least one fault was delivered.")
    state_note = "distinct (saver, operation sequence, delivered faults, outcome, final disk class) tuples"
    real = ["ghedt.utilities savers", "ghedt.search_routines.oak_ridge_export", "json", "pickle", "Python io stack"]
    stubs = ["disk below the io stack (vfs: scratch directory plus power-loss shadow)", "long-time g-function solver"]
    assumptions = ["directory operations reach the disk in order (journalled file system); file data only when synced",
                   "the export is driven with a built exchanger and its coordinates instead of a whole search"]
    shrink_keys = ["faults", "calls", "others"]

    def setup(self):
        files.prebuild(2)

    def generate(self, rng, i, tier):
        saver = rng.choice(["json", "json", "obj", "obj", "export"])
        c = {"saver": saver, "docseed": rng.randint(0, 10**9), "name": rng.choice(files.NAMES),
             "prior": rng.choice([None, "api", "api", "garbage"]), "indent": rng.choice([4, 4, 4, 0, None, 2]),
             "others": rng.sample(["%s.bak", "%s.tmp", "%s.json.tmp", "%s.obj.tmp", "note.txt", "%s",
                                   ".%s.json.swp", "sub/%s.json"], rng.randint(0, 4)) + rng.sample(files.NEAR, rng.choice([0, 0, 2, 5])),
             "cwd": rng.random() < 0.3, "link": rng.random() < 0.08, "missing_dir": rng.random() < 0.03,
             "bad": rng.choice(BAD) if rng.random() < 0.12 else None,
             "faults": [], "calls": [], "nload": rng.choice([5, 200, 3000]), "power": rng.randint(0, 10**9),
             "ghe": rng.randint(0, 1), "design": world.draw_design(rng)}
        r = rng.random()
        if r < 0.2:
            c["calls"] = [inject.draw(rng)]
        elif r < 0.95:
            c["faults"] = [files.draw_fault(rng) for _ in range(rng.choice([1, 1, 1, 1, 2, 3]))]
        return c

    # -- pieces ------------------------------------------------------------
    def payloads(self, c):
        """(old thing, new thing, save function, extension)"""
        rng = core.rng_for("doc", c["docseed"])
        s = c["saver"]
        if s == "json":
            old, new = files.draw_doc(rng, 0), files.draw_doc(rng, 1)
            if c["bad"]:
                self.spoil(new, c["bad"], rng)
            return old, new, lambda p, x: files.save_json(p, x, c["indent"]), ".json"
        if s == "obj":
            d = dict(c["design"], nload=c["nload"])
            old = files.tiny_design(dict(d, version=1))
            new = files.tiny_design(dict(d, version=2))
            if c["bad"]:
                new.note = lambda: 0
            return old, new, files.save_obj, ".obj"
        ghe, _ = files.prebuilt(c["ghe"])
        xy = ghe.GFunction.bore_locations
        return files.FakeSearch(ghe, xy[:1]), files.FakeSearch(ghe, xy), files.save_export, ".json"

    def spoil(self, doc, how, rng):
        if how == "circular":
            doc["tail"] = doc
        else:
            doc["tail"] = {"a": [1, {"b": {"object": object(), "set": {1}, "bytes-key": b"x",
                                           "lambda": len}[how]}]}

    def place(self, root, c, old, save, ext):
        """initial disk content; returns the target path"""
        name = c["name"]
        base = os.path.join(root, name)
        if not c["missing_dir"]:
            os.makedirs(os.path.dirname(base), exist_ok=True)
        if c["prior"] == "api" and not c["missing_dir"]:
            save(base, old)
        elif c["prior"] == "garbage" and not c["missing_dir"]:
            with open(base + ext, "wb") as f:
                f.write(b"not ours \x00\xff" * 700)
        if c["link"] and not c["missing_dir"] and os.path.exists(base + ext):
            os.makedirs(os.path.join(root, "store"), exist_ok=True)
            os.replace(base + ext, os.path.join(root, "store", "real" + ext))
            os.symlink(os.path.join(root, "store", "real" + ext), base + ext)
        stem = os.path.basename(name)
        for o in c["others"]:
            p = files.near(o, base, ext) if "{" in o else os.path.join(root, o % stem if "%s" in o else o)
            if os.path.realpath(p) == os.path.realpath(base + ext):
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if not os.path.lexists(p):
                if "{" in o and not c["missing_dir"]:       # an earlier file of the same kind
                    save(base + ".earlier", old)
                    os.replace(base + ".earlier" + ext, p)
                else:
                    with open(p, "wb") as f:
                        f.write(b"bystander " + o.encode())
        return base

    def kept(self, doc, path, ext):
        """does the file hold a document that cannot be stored in JSON as it is"""
        try:
            if ext != ".json":
                return callable(files.load_obj(path).note)
            return compare.plain(files.load_json(path)) == compare.plain(doc)
        except Exception:
            return False

    def attempt(self, fn, disk, plan=None, calls=None):
        """-> (outcome, exception)"""
        disk.main.plan = plan or []
        try:
            with vfs.active(disk):
                if calls is not None:
                    with calls:
                        fn()
                else:
                    fn()
            return "returned", None
        except vfs.SimCrash as e:
            return "crashed", e
        except BaseException as e:
            return "raised", e

    def execute(self, c, ctx):
        old, new, save, ext = self.payloads(c)
        with files.Scratch() as top:
            ra, rb = os.path.join(top, "a"), os.path.join(top, "b")
            os.mkdir(ra)
            os.mkdir(rb)
            # the same save where nothing is: what complete new content is
            rf = os.path.join(top, "f")
            os.mkdir(rf)
            base = os.path.join(rf, c["name"])
            if not c["missing_dir"]:
                os.makedirs(os.path.dirname(base), exist_ok=True)
            fout, fexc = self.attempt(lambda: save(self.argpath(c, rf, base), new), vfs.Disk(rf))
            fresh = files.read_bytes(base + ext)
            if fout == "returned" and c["bad"] and c["saver"] != "export" and not self.kept(new, base + ext, ext):
                ctx.fail("lost-save", "a save of a document holding %s returned but the file does not hold it" % c["bad"])
                return
            # undisturbed twin: operation list
            base = self.place(ra, c, old, save, ext)
            d0 = vfs.Disk(ra)
            d0.load_shadow()
            pa = self.argpath(c, ra, base)
            watch = inject.CallWatch()
            out, exc = self.attempt(lambda: save(pa, new), d0, calls=watch)
            want = files.read_bytes(base + ext)
            ops = list(d0.main.oplog)
            if out != "returned":
                if not c["bad"] and not c["missing_dir"]:
                    if fout == "returned":
                        ctx.fail("spurious-failure", "a save onto %s raised %r without any fault" % (c["prior"], exc))
                        return
                    raise core.Skip("undisturbed save raised %r" % (exc,))
                want = None
            elif c["bad"]:
                raise core.Skip("bad document was accepted")
            elif fout == "returned" and want != fresh and not (
                    want is not None and self.same(c, ext, base + ext, want, fresh, top)):
                ctx.fail("lost-save", "a save onto %s returned but the file differs from one saved where nothing was"
                         % c["prior"])
                return
            # the faulted run
            base = self.place(rb, c, old, save, ext)
            target = base + ext
            before = files.read_bytes(target)
            disk = vfs.Disk(rb)
            disk.load_shadow()
            snap0 = disk.snapshot()
            plan = files.resolve_faults(c["faults"], ops)
            calls = None
            if c["calls"]:
                cp = watch.choose(c["calls"][0])
                if cp:
                    calls = inject.CallWatch(cp)
                    ctx.note("call fault:", watch.describe(cp))
            ctx.note("undisturbed operations:", [k for k, _ in ops])
            pb = self.argpath(c, rb, base)
            out, exc = self.attempt(lambda: save(pb, new), disk, [dict(f) for f in plan], calls)
            text = "" if exc is None else " (%s: %s)" % (type(exc).__name__, str(exc)[:80])
            del exc
            dl = disk.main.delivered
            for f in dl:
                ctx.fault("%s@%s" % (f["what"], f["at"]))
                ctx.note("fault", f["what"], "at operation", f["op"], f["at"], os.path.basename(f["path"]))
            struck = calls is not None and calls.struck is not None
            if struck:
                ctx.fault("call:" + calls.struck[2])
            if c["bad"]:
                ctx.fault("unserialisable")
            ctx.sim_time += disk.main.nops
            ctx.note("outcome:", out + text)
            after = files.read_bytes(target)
            hist = "%s onto %s, faults %s, outcome %s%s" % (
                c["saver"], c["prior"] or "nothing", [(f["what"], f["at"]) for f in dl] +
                ([calls.struck[2] + " call " + calls.struck[3]] if struck else []), out, text)
            isnew = after is not None and after == want
            if not isnew and after is not None and after != before and want is not None:
                isnew = self.same(c, ext, target, after, want, top)
            if after != before and not isnew:
                ctx.fail("torn-target", "the target holds neither its old nor the new content after %s: %s" %
                         (hist, self.cls(after)))
                return
            if out == "returned" and not isnew:
                ctx.fail("lost-save", "the save returned but the new content is not there: " + hist)
                return
            if out == "returned" and want is not None:
                hard = [f for f in dl if f["what"] in vfs.HARD and
                        (f["at"] in ("write", "close-w") or
                         (f["at"] in ("fsync", "open-w") and not os.path.isdir(os.path.join(rb, f["path"]))))]
                if hard:
                    ctx.fail("swallowed-error", "a failing file operation was hidden from the caller: " + hist)
                    return
            if out == "raised" and not dl and not struck and not c["bad"] and not c["missing_dir"]:
                ctx.fail("spurious-failure", "the save failed without any fault: " + hist)
                return
            # bystanders
            snap1 = disk.snapshot()
            trel = os.path.relpath(target, rb)
            mine = {trel, os.path.relpath(os.path.realpath(target), os.path.realpath(rb))}
            for rel, data in snap0.items():
                if rel in mine:
                    if data is not None and data.startswith(b"->"):
                        continue
                    continue
                if snap1.get(rel, b"<gone>") != data:
                    ctx.fail("bystander-damaged", "another file, %r, changed: %s" % (rel, hist))
                    return
            stray = sorted(r for r in snap1 if r not in snap0 and r not in mine)
            cleanup_hit = [f for f in dl if f["at"] in ("unlink",)]
            if stray and out != "crashed" and len(dl) + struck + bool(c["bad"]) <= 1 and not cleanup_hit:
                ctx.fail("stray-file", "left behind %s after %s" % (stray, hist))
                return
            # power loss right now
            if disk.shadow_matches() and not c["link"]:
                rng = core.rng_for("power", c["power"])
                for _ in range(3):
                    ctx.fault("power-loss")
                    found = disk.power_loss(rng)
                    got = found.get(trel)
                    if got != before and got != after and got != want:
                        ctx.fail("torn-after-power-loss",
                                 "after a power loss the target holds neither the old nor the new content (%s): %s"
                                 % (self.cls(got), hist))
                        return
                    bad = [r for r, data in snap0.items() if r not in mine and found.get(r, b"<gone>") != data
                           and data is not None]
                    if bad:
                        ctx.fail("bystander-damaged", "power loss damaged %s: %s" % (bad, hist))
                        return
            else:
                ctx.stat("power_loss_not_modelled")
            # faults stop: the next save works
            if want is not None:
                d2 = vfs.Disk(rb)
                d2.load_shadow()
                o2, e2 = self.attempt(lambda: save(pb, new), d2)
                if o2 != "returned" or not (files.read_bytes(target) == want or
                                            self.same(c, ext, target, files.read_bytes(target), want, top)):
                    ctx.fail("no-recovery", "after %s the next undisturbed save %s" % (hist, o2 + " " + repr(e2)[:100]))
                    return
            ctx.state((c["saver"], tuple(k for k, _ in disk.main.oplog), tuple((f["what"], f["op"]) for f in dl),
                       struck and calls.struck, out, isnew))

    def argpath(self, c, root, base):
        if c["cwd"]:
            os.chdir(root)
            return c["name"]
        return base

    def same(self, c, ext, path, a, b, top):
        """contents equal in meaning though not in bytes"""
        if a is None or b is None:
            return False
        try:
            vals = []
            for i, x in enumerate((a, b)):
                p = os.path.join(top, "cmp%d%s" % (i, ext))
                with open(p, "wb") as f:
                    f.write(x)
                v = files.load_json(p) if ext == ".json" else files.load_obj(p)
                vals.append(compare.plain(v) if ext == ".json" else compare.snap(v))
            return not compare.close(vals[0], vals[1], rel=0, ab=0)
        except Exception:
            return False

    def cls(self, data):
        if data is None:
            return "absent"
        return "%d bytes, starting %r" % (len(data), data[:20])

    def shrink(self, c):
        yield from core.shrink_lists(c, self.shrink_keys)
        for k, v in (("cwd", False), ("link", False), ("missing_dir", False), ("bad", None), ("nload", 5),
                     ("name", "out"), ("prior", "garbage"), ("indent", 4)):
            if c[k] != v:
                yield dict(c, **{k: v})
