"""C03: damaged data fails loudly; every file is closed; a load changes nothing on disk."""
import gc
import os

from sim import compare, core, files, inject, vfs, world
from sim.base import BaseCheck


# files a user, an editor or an interrupted save may have left near the one that is loaded
ASK = ["{b}", "{b}.v2", "{p}{e}", "{p}.bak", "{b}_2{e}", "{b}{E}", "{d}/nodir/{n}", "{b}.xyz", "{p}~", "{b} {e}", "{b}.", "{p} "]


class Check(BaseCheck):
    quick_runs = 2500
    thorough_runs = 60000
    quick_wall = 150
    rule = ("One run = a stored document, list or design (or foreign bytes), damaged on disk (missing, empty, "
            "cut at a seeded byte, trailing half lost in a power failure while the writer was at work, a directory "
            "in its place, or asked for under a name that does not exist; copies and leftovers under other names may lie "
            "beside it) and/or read with faults (I/O error at any operation, short reads, interrupt), loaded "
            "through the library; plus saves with faults; after each call the files opened by it must be closed "
            "while the traceback is still held. Non-trivial: damaged or faulted.")
    state_note = "distinct (kind, damage, cut region, delivered faults, outcome) tuples"
    real = ["ghedt.utilities js_load, read_input_file, js_dump, create_input_file", "json", "pickle",
            "Python io stack"]
    stubs = ["disk below the io stack (vfs)"]
    assumptions = ["stored JSON documents are objects or lists (a truncated bare number is still a number)"]
    shrink_keys = ["faults", "near"]

    def generate(self, rng, i, tier):
        c = {"kind": rng.choice(["json", "json", "obj", "obj", "obj"]), "docseed": rng.randint(0, 10**9),
             "name": rng.choice(files.NAMES), "nload": rng.choice([5, 200, 3000]),
             "damage": rng.choice(["none", "missing", "empty", "cut", "cut", "cut", "cut", "cut-small", "cut-tail",
                                   "dir", "nodir", "crashed-save"]),
             "pos": round(rng.random(), 6), "k": rng.randint(1, 40), "faults": [], "calls": [],
             "op": rng.choice(["load", "load", "load", "save"]), "indent": rng.choice([4, 4, None, 0]),
             "top": rng.choice(["dict", "list"]), "obj": rng.choice(["design", "design", "ghe", "plain"]),
             "ghe": rng.randint(0, 1), "design": world.draw_design(rng), "bad": rng.random() < 0.2,
             "power": rng.randint(0, 10**9),
             "near": rng.sample(files.NEAR, rng.choice([0, 0, 1, 3, 6]))}
        if c["op"] == "load" and rng.random() < 0.1:
            c["ask"] = rng.choice(ASK)          # a name that does not exist, close to one that does
            c["damage"] = "none"
        r = rng.random()
        if c["damage"] == "none" or r < 0.3:
            if rng.random() < 0.25:
                c["calls"] = [inject.draw(rng)]
            elif rng.random() < 0.9:
                w = rng.choice(["open-r", "read", "read", "read", "close-r", None])
                if c["op"] == "save":
                    w = rng.choice([None, "write", "write", "fsync", "close-w", "rename", "open-w"])
                c["faults"] = [files.draw_fault(rng, w) for _ in range(rng.choice([1, 1, 2]))]
        return c

    def setup(self):
        files.prebuild(2)

    def doc(self, c):
        rng = core.rng_for("doc", c["docseed"])
        if c["kind"] == "json":
            d = files.draw_doc(rng, 1)
            return d if c["top"] == "dict" else [d, rng.random()]
        if c["obj"] == "design":
            return files.tiny_design(dict(c["design"], nload=c["nload"], version=c["docseed"] % 97))
        if c["obj"] == "ghe":
            return files.prebuilt(c["ghe"])[0]
        return {"loads": [float(x) for x in range(c["nload"])], "doc": files.draw_doc(rng, 2)}

    def value(self, c, x):
        return compare.plain(x) if c["kind"] == "json" else compare.snap(x)

    def execute(self, c, ctx):
        doc = self.doc(c)
        json_ = c["kind"] == "json"
        ext = ".json" if json_ else ".obj"
        save = (lambda p, d: files.save_json(p, d, c["indent"])) if json_ else files.save_obj
        load = files.load_json if json_ else files.load_obj
        with files.Scratch() as root:
            base = os.path.join(root, c["name"])
            path = base + ext
            os.makedirs(os.path.dirname(base), exist_ok=True)
            save(base, doc)
            with open(path, "rb") as f:
                whole = f.read()
            want = self.value(c, doc)
            # undisturbed load in place
            d0 = vfs.Disk(root)
            watch = inject.CallWatch()
            if c["op"] == "save":
                with vfs.active(d0), watch:
                    save(base, doc)
            else:
                with vfs.active(d0), watch:
                    got = load(path)
                if self.value(c, got) != want and compare.close(self.value(c, got), want, 0, 0):
                    ctx.fail("wrong-content", "an undisturbed load does not return what was stored")
                    return
                if d0.main.open_files:
                    ctx.fail("left-open", "an undisturbed load left %s open" % sorted(d0.main.open_files.values()))
                    return
            ops = list(d0.main.oplog)
            damage = c["damage"] if c["op"] == "load" else "none"
            cut = self.damage(c, damage, path, whole, root, save, base, doc, ctx)
            asked = path
            if c.get("ask"):
                asked = files.near(c["ask"], base, ext)
                if os.path.lexists(asked):
                    asked = path
            for pattern in c.get("near", []):
                other = files.near(pattern, base, ext)
                if not os.path.lexists(other) and other not in (path, asked):
                    os.makedirs(os.path.dirname(other), exist_ok=True)
                    with open(other, "wb") as f:
                        f.write(whole)
            if asked != path:
                damage = "another name"
            disk = vfs.Disk(root)
            plan = files.resolve_faults(c["faults"], ops)
            calls = None
            if c["calls"]:
                p = watch.choose(c["calls"][0])
                if p:
                    calls = inject.CallWatch(p)
                    ctx.note("call fault:", watch.describe(p))
            before = disk.snapshot()
            stamps = self.stamps(root, True)
            disk.main.plan = [dict(f) for f in plan]
            held = None
            got = None
            target = doc
            if c["op"] == "save" and c["bad"]:
                target = dict(doc) if isinstance(doc, dict) else None
                if target is None:
                    target = doc
                    if not json_:
                        target.note = lambda: 0
                    else:
                        target = doc + [object()]
                else:
                    target["bad"] = lambda: 0
                ctx.fault("unserialisable")
            gc.disable()
            try:
                with vfs.active(disk):
                    if calls is not None:
                        calls.__enter__()
                    try:
                        if c["op"] == "save":
                            save(base, target)
                        else:
                            got = load(asked)
                        out = "returned"
                    except vfs.SimCrash as e:
                        out, held = "crashed", e
                    except BaseException as e:
                        out, held = "raised", e
                    finally:
                        if calls is not None:
                            calls.__exit__()
                    left = sorted(disk.main.open_files.values())
            finally:
                gc.enable()
            dl = disk.main.delivered
            for f in dl:
                ctx.fault("%s@%s" % (f["what"], f["at"]))
                ctx.note("fault", f["what"], "at operation", f["op"], f["at"])
            struck = calls is not None and calls.struck is not None
            if struck:
                ctx.fault("call:" + calls.struck[2])
            if damage != "none":
                ctx.fault("damage:" + damage)
            ctx.sim_time += disk.main.nops
            what = "%s %s%s of %s, %s%s%s, faults %s" % (
                c["op"], c["kind"], "", len(whole), damage, "" if cut is None else " at byte %d" % cut,
                " beside " + ", ".join(c["near"]) if c.get("near") else "",
                [(f["what"], f["at"]) for f in dl] + ([calls.struck[2] + " call " + calls.struck[3]] if struck else []))
            ctx.note(what, "->", out, type(held).__name__)
            if out != "crashed" and left:
                hard_close = [f for f in dl if f["at"].startswith("close")]
                ki = [f for f in dl if f["what"].startswith("KI") and f["at"].startswith("open")]
                # an interrupt at the very moment of opening or closing is beyond any program
                if not hard_close and not ki:
                    ctx.fail("left-open", "%s and left %s open: %s" % (out, left, what))
                    return
            if c["op"] == "load":
                after = disk.snapshot()
                if after != before and out != "crashed":
                    diff = sorted(k for k in set(after) | set(before) if after.get(k, b"?") != before.get(k, b"?"))
                    ctx.fail("load-wrote", "a load changed %s on disk: %s" % (diff, what))
                    return
                if self.stamps(root) != stamps and out != "crashed":
                    ctx.fail("load-wrote", "a load changed the time or mode of a file: " + what)
                    return
                if out == "returned":
                    bad = damage != "none" and (cut is None or cut < len(whole))
                    v = self.value(c, got)
                    if v != want and compare.close(v, want, 0, 0):
                        ctx.fail("damaged-accepted", "a load returned something else than was stored (%s): %s"
                                 % (type(got).__name__, what))
                        return
                    if bad and not self.harmless(c, whole, cut):
                        ctx.fail("damaged-accepted", "a load of damaged data returned normally: " + what)
                        return
                    hard = [f for f in dl if f["what"] in vfs.HARD and f["at"] in ("open-r", "read")]
                    if hard:
                        ctx.fail("read-error-hidden", "a failed read was hidden: " + what)
                        return
                elif out == "raised" and damage == "none" and not dl and not struck:
                    ctx.fail("spurious-failure", "an undamaged file did not load (%r): %s" % (held, what))
                    return
                elif out == "raised" and damage == "none" and not struck and \
                        all(f["what"] == "short" for f in dl):
                    ctx.fail("spurious-failure", "short reads made the load fail (%r): %s" % (held, what))
                    return
                # afterwards an intact copy loads, in the same process
                p2 = os.path.join(root, "intact" + ext)
                with vfs._real["open"](p2, "wb") as f:
                    f.write(whole)
                try:
                    v = self.value(c, load(p2))
                except BaseException as e:
                    v = repr(e)
                if v != want and compare.close(v, want, 0, 0):
                    ctx.fail("no-recovery", "after a failed load an intact file does not load: %s" % what)
                    return
            ctx.state((c["kind"], c["op"], damage, None if cut is None else cut * 16 // max(1, len(whole)),
                       tuple((f["what"], f["at"], f["op"]) for f in dl), struck and calls.struck, out,
                       type(held).__name__))
            del held

    def harmless(self, c, whole, cut):
        """does the part that is left still hold the complete value?"""
        if c["kind"] == "json":
            return cut is not None and not whole[cut:].strip()
        return False

    def damage(self, c, how, path, whole, root, save, base, doc, ctx):
        if how == "none":
            return None
        if how in ("missing", "dir", "nodir"):
            os.unlink(path)
            if how == "nodir" and os.path.dirname(path) != root:
                return os.rmdir(os.path.dirname(path))
            if how == "dir":
                os.mkdir(path)
            return None
        if how == "crashed-save":
            # a first save of this file is cut down by a crash or a power loss; what is
            # found at the path afterwards is what we load
            os.unlink(path)
            d = vfs.Disk(root)
            d.load_shadow()
            n = max(1, int(c["pos"] * 12))
            d.main.plan = [{"op": n, "what": "crash-before", "frac": c["pos"]}]
            try:
                with vfs.active(d):
                    save(base, doc)
            except vfs.SimCrash:
                pass
            if d.shadow_matches():
                found = d.power_loss(core.rng_for("pl", c["power"]))
                data = found.get(os.path.relpath(path, root))
                if os.path.exists(path):
                    os.unlink(path)
                if data is not None:
                    with vfs._real["open"](path, "wb") as f:
                        f.write(data)
            if not os.path.exists(path):
                return None
            with vfs._real["open"](path, "rb") as f:
                now = f.read()
            return len(whole) if now == whole else len(now) if whole.startswith(now) else 0
        n = len(whole)
        cut = {"empty": 0, "cut": int(c["pos"] * n), "cut-small": min(n - 1, c["k"]),
               "cut-tail": max(0, n - c["k"])}[how]
        with vfs._real["open"](path, "wb") as f:
            f.write(whole[:cut])
        return cut

    @staticmethod
    def stamps(root, settle=False):
        """mode and modification time of every file (first set to a time long past)"""
        out = {}
        for d, _, names in os.walk(root):
            for n in names:
                p = os.path.join(d, n)
                if settle:
                    os.utime(p, (1.0e9, 1.0e9), follow_symlinks=False)
                s = os.lstat(p)
                out[p] = (s.st_mode, s.st_mtime_ns)
        return out

    def shrink(self, c):
        yield from core.shrink_lists(c, self.shrink_keys)
        for k, v in (("nload", 5), ("name", "out"), ("indent", 4), ("obj", "plain"), ("bad", False), ("damage", "none")):
            if c[k] != v:
                yield dict(c, **{k: v})
