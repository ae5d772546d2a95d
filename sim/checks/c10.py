"""C10: results depend only on the inputs."""
import json
import os
import random
import subprocess
import sys
import threading
import time

import numpy as np

from sim import clock, core, files, inject, jobs, ops, place, world
from sim.base import BaseCheck

TZS = ["UTC", "Asia/Kathmandu", "America/St_Johns", "XYZ-13", "EST5EDT"]
VALUES = ["", "0", "1", "2", "12", "true", "true", "True", "yes", "on", "none", "debug", "xyz", "/nonexistent"]


def memo():
    world.memo_short_time_steps()
    world.memo_peak_simulations()


def alone(job):
    with files.Scratch() as d:
        place.settle(d)
        jobs.perform(job, outputs(d))
        os.chdir("/")


def outputs(d):
    o = os.path.join(d, "o")
    os.makedirs(o)
    return o


def reference(job):
    """the calculation alone, in a pristine process with an even clock and empty places
    -> answer, environment variables read, files looked for"""
    clock.set_source(clock.Clock(random.Random(0), jumps=False, fixed=0.001))
    jobs.watch_environ()
    with files.Scratch() as d:
        at = place.settle(d)
        o = outputs(d)
        looked, written = place.watch(at)
        r = jobs.perform(job, o)
        os.chdir("/")
    return r, sorted(jobs.env_read), sorted(looked - written)


def reads_under(job, values, paths=(), seed=0):
    """what is read and looked for once the variables seen so far have these values and the files exist
    -> variables, files, keys of settings files"""
    jobs.watch_environ()
    os.environ.update(values)
    place.log_keys()
    with files.Scratch() as d:
        at = place.settle(d)
        o = outputs(d)
        place.plant(at, paths, seed)
        looked, written = place.watch(at)
        jobs.perform(job, o)
        os.chdir("/")
    return sorted(jobs.env_read), sorted(looked - written), sorted(place.Keys.seen)


def rng_state():
    s = np.random.get_state()
    return [repr(random.getstate()), s[0], s[1].tolist(), s[2], s[3], s[4]]


def surroundings():
    return {"random": rng_state(), "cwd": os.getcwd(), "environ": dict(os.environ), "umask": umask()}


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


class Check(BaseCheck):
    quick_runs = 140
    thorough_runs = 15000
    quick_wall = 200
    rule = ("One run = one calculation (candidate fields, polygon cuts, resistances and equivalents, g-function "
            "libraries, exchangers with simulation, sizing, reports and export, complete designs) performed in a pristine "
            "process with an even clock, then in a disturbed one: jumping clock, seeded generator states, another "
            "working directory, home and temporary directory (with files where ghedt was seen to look for some), environment (including every variable ghedt was seen to read), number of processors, a second thread, and "
            "0-4 preceding calculations, most of them equal to it but for one input, some interrupted; in a third of the "
            "runs also in a separately started interpreter with another hash seed, time zone and locale.")
    state_note = "distinct (calculation, preceding work, surroundings) reached"
    real = ["all of ghedt's calculations, domains, searches, reports and exports", "pygfunction pipes and media",
            "separately started interpreters"]
    stubs = ["long-time g-function solver (stand-in)", "clock (virtual)",
             "in runs with designs the short-time-step solution is memoised by the numbers of the exchanger"]
    assumptions = ["numbers are compared to 1e-9 and numbers within report text to their printed digits (last bits may "
                   "depend on memory alignment)"]
    shrink_keys = ["before"]

    def generate(self, rng, i, tier):
        job = jobs.draw(rng)
        before = []
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
            b = {"job": jobs.vary(job, rng) if rng.random() < 0.75 else jobs.draw(rng) if rng.random() < 0.7 else job}
            if rng.random() < 0.25:
                b["line"] = round(rng.random(), 6)
            before.append(b)
        c = {"job": job, "before": before, "seed": rng.randint(1, 10**6), "clock": rng.randint(1, 20000),
             "thread": rng.random() < 0.15, "tz": rng.choice(TZS), "vals": [rng.choice(VALUES) for _ in range(4)],
             "again": rng.random() < 0.4, "planted": rng.random() < 0.7, "relative": rng.random() < 0.3}
        c["memo"] = any(x["k"] == "design" for x in [job] + [b["job"] for b in before])
        if rng.random() < (0.75 if job["k"] in ("polygon", "domain") else 0.3):
            c["process"] = {"hash": rng.randint(1, 4 * 10**9), "tz": rng.choice(TZS), "lc": rng.choice(["C", "C.UTF-8"]),
                            "clock": rng.randint(1, 20000), "before": rng.random() < 0.5,
                            "extra": [jobs.draw(rng, ["domain", "polygon", "polygon", "bhe"]) for _ in range(3)]}
        return c

    def execute(self, c, ctx):
        if c["memo"]:
            memo()
            world.warm(lambda: alone(c["job"]))
        with core.Zygote() as z:
            ref, read, looked = z.call(reference, c["job"])
            keys = []
            ctx.note(c["job"]["k"], "->", ref[0] if ref[0] == "ok" else ref)
            if ref[0] != "ok":
                ctx.stat("reference_raised")
            for n in range(2):  # what else is looked at when these have values and exist
                if read or looked:
                    vals = {x: VALUES[(c["seed"] + 3 * n + k) % len(VALUES)] for k, x in enumerate(read)
                            if x not in ("HOME", "TMPDIR")}
                    more, files_, keys_ = z.call(reads_under, c["job"], vals, looked, 0)
                    read = sorted(set(read) | set(more))
                    looked = sorted({tuple(x) for x in looked} | {tuple(x) for x in files_})
                    keys = sorted(set(keys) | set(keys_))
            self.found = (looked, keys)
            extra = []
            if c.get("process"):
                extra = [z.call(reference, j)[0] for j in c["process"]["extra"]]
            with files.Scratch() as d:
                try:
                    if self.disturbed(c, ctx, d, ref, read):
                        return
                finally:
                    os.chdir("/")
                if c.get("process") and self.process(c, ctx, d, ref, read, extra):
                    return
        ctx.nontrivial = True
        ctx.sim_time += ctx.travelled if hasattr(ctx, "travelled") else 1
        ctx.stat("job_" + c["job"]["k"])
        ctx.state((core.digest(c["job"]), [core.digest(b) for b in c["before"]], c["seed"], c.get("process")))

    def disturbed(self, c, ctx, d, ref, read):
        at = place.settle(os.path.join(d, "elsewhere"))
        home = at["cwd"]
        os.makedirs(os.path.join(home, "o"))
        os.cpu_count = lambda: 1 + c["seed"] % 9
        os.getloadavg = lambda: (c["seed"] % 40, 1.0, 0.1)
        random.seed(c["seed"])
        np.random.seed(c["seed"] % 2**32)
        os.environ["TZ"] = c["tz"]
        time.tzset()
        for k, name in enumerate(read):
            if name in ("HOME", "TMPDIR") and c["seed"] % 2:
                continue
            os.environ[name] = c["vals"][k % len(c["vals"])]
            ctx.fault("environment:" + name)
        looked, keys = self.found
        if c["planted"]:
            for what in place.plant(at, looked, c["seed"], keys):
                ctx.fault("file-found")
                ctx.note("found there:", *what)
        ck = clock.Clock(core.rng_for("clock", c["clock"]), start=c["clock"] * 1e5)
        clock.set_source(ck)
        where = "o" if c["relative"] else os.path.join(home, "o")
        for n, b in enumerate(c["before"]):
            fn = lambda: jobs.perform(b["job"], where)
            if "line" in b:
                _, lines = core.in_fork(lambda: ops.dry_lines(fn))
                w = inject.LineWatch(inject.pick_line(b["line"], lines))
                try:
                    with w:
                        fn()
                except BaseException as e:
                    del e
                if w.struck:
                    ctx.fault("line:KeyboardInterrupt")
                ctx.note("preceding", n + 1, b["job"]["k"], "interrupted at", w.struck)
            else:
                r = fn()
                ctx.note("preceding", n + 1, b["job"]["k"], "->", r[0])
            ctx.fault("preceding-work")
        os.chdir(home)          # (each piece of work is the caller's; the calculation itself is judged below)
        for turn in range(2 if c["again"] else 1):
            was = surroundings()
            if c["thread"]:
                box = []
                t = threading.Thread(target=lambda: box.append(jobs.perform(c["job"], where)))
                t.start()
                t.join()
                got = box[0] if box else ["raised", "nothing returned"]
            else:
                got = jobs.perform(c["job"], where)
            now = surroundings()
            diff = jobs.differs(ref, got)
            if diff:
                ctx.fail("surroundings", "%s gives another result %sthan in a pristine process (%s)" % (
                    self.show(c), "when repeated " if turn else "", diff))
                return True
            for k in was:
                if was[k] != now[k]:
                    ctx.fail("side-effect", "%s changed the caller's %s" % (self.show(c), k if k != "random" else
                             "random number generators"))
                    return True
        clock.set_source(None)
        ctx.travelled = ck.travelled
        ctx.stat("clock_reads", ck.reads)
        ctx.stat("clock_jumps", ck.njumps)
        ctx.fault("generator-state")
        ctx.fault("clock")
        ctx.fault("working-directory")
        return False

    def process(self, c, ctx, d, ref, read, extra):
        p = c["process"]
        e = {k: os.environ[k] for k in ("PATH", "HOME", "MPLBACKEND", "MPLCONFIGDIR", "GHEDT_REPO") if k in os.environ}
        e.update(PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
                 PYTHONHASHSEED=str(p["hash"]), TZ=p["tz"], LC_ALL=p["lc"], PYTHONIOENCODING="utf-8")
        for k, name in enumerate(read):
            if name not in e:
                e[name] = c["vals"][-1 - k % len(c["vals"])]
        home = os.path.join(d, "process")
        os.makedirs(home)
        for k, v in (("HOME", "home"), ("TMPDIR", "tmp")):
            e[k] = os.path.join(d, v)
            os.makedirs(e[k])
        seq = [b["job"] for b in c["before"] if "line" not in b][:2] if p["before"] else []
        spec = {"jobs": seq + [c["job"]], "extra": p["extra"], "memo": c["memo"], "clock": p["clock"]}
        r = subprocess.run([sys.executable, "-W", "ignore", os.path.join(core.VERIF, "sim", "jobs.py"), home],
                           input=json.dumps(spec), capture_output=True, text=True, env=e, cwd=home, timeout=280)
        ctx.fault("process:hash-seed")
        if "@@ANSWER@@" not in r.stdout:
            raise RuntimeError("process gave no answer: %s" % (r.stdout + r.stderr)[-1500:])
        got = json.loads(r.stdout.split("@@ANSWER@@")[1])["answers"][len(seq):]
        for n, (a, b) in enumerate(zip([ref] + extra, got)):
            diff = jobs.differs(json.loads(json.dumps(a)), b)
            if diff:
                ctx.fail("process", "%s gives another result in a process with hash seed %d, TZ=%s (%s)"
                         % (self.show(c) if not n else "'%s'" % p["extra"][n - 1]["k"], p["hash"], p["tz"], diff))
                return True
        return False

    def show(self, c):
        j = c["job"]
        what = j["k"] + (" " + j["f"] if "f" in j else " " + j["d"]["routine"] if "d" in j else "")
        return "'%s'%s" % (what, " after " + ", ".join(b["job"]["k"] for b in c["before"]) if c["before"] else "")

    def shrink(self, c):
        yield from core.shrink_lists(c, self.shrink_keys)
        if c.get("process"):
            x = c["process"]["extra"]
            for n in range(len(x)):
                yield dict(c, process=dict(c["process"], extra=x[:n] + x[n + 1:]))
        for k, v in (("process", None), ("thread", False), ("again", False), ("relative", False)):
            if c.get(k):
                yield dict(c, **{k: v})
        for n, b in enumerate(c["before"]):
            if "line" in b:
                x = json.loads(json.dumps(c))
                x["before"][n].pop("line")
                yield x
        if len(c["job"].get("ops", [])) > 1:
            for n in range(len(c["job"]["ops"])):
                x = json.loads(json.dumps(c))
                x["job"]["ops"].pop(n)
                yield x
