"""Runner: seeded cases in forked processes, minimisation, replay, evidence."""
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("GHEDT_REPO", "/repo")
WORKERS = int(os.environ.get("SIM_WORKERS", "0")) or min(8, os.cpu_count() or 1)
CASE_WALL = 240.0       # real seconds before a case is declared stuck
WRAPPED_CLOCK = {}


def rng_for(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=repr).encode()).hexdigest()[:16]


class Violation(Exception):
    def __init__(self, kind, message, **detail):
        super().__init__(message)
        self.kind, self.message, self.detail = kind, message, detail


class Skip(Exception):
    """The case says nothing (baseline not applicable)."""


class Ctx:
    """What one run records."""

    def __init__(self):
        self.violations = []
        self.faults = {}
        self.stats = {}
        self.states = []         # hashable markers: interleavings / states reached
        self.trace = []          # human readable schedule and fault trace
        self.sim_time = 0.0
        self.nontrivial = False
        self.skipped = None

    def fail(self, kind, message, **detail):
        self.violations.append({"kind": kind, "message": message, "detail": detail})

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.nontrivial = True

    def stat(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def state(self, marker):
        self.states.append(hashlib.sha256(repr(marker).encode()).hexdigest()[:12])

    def note(self, *a):
        if len(self.trace) < 400:
            self.trace.append(" ".join(str(x) for x in a))


# -- processes -----------------------------------------------------------------
_real_os_write, _real_os_read = os.write, os.read
_mono = time.monotonic


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = len(data).to_bytes(8, "big") + data
    mv = memoryview(data)
    while mv:
        n = _real_os_write(fd, mv[:65536])
        mv = mv[n:]


def _child(fd, fn):
    try:
        out = ("ok", fn())
    except BaseException as e:
        out = ("err", type(e).__name__, "".join(traceback.format_exception(e))[-6000:])
    try:
        _send(fd, out)
    except BaseException:
        try:
            _send(fd, ("err", "Unpicklable", traceback.format_exc()[-3000:]))
        except BaseException:
            pass
    os._exit(0)


class Fork:
    def __init__(self, fn):
        self.r, w = os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.closerange  # keep
            _close(self.r)
            _child(w, fn)
        _close(w)
        self.buf = bytearray()
        self.t0 = _mono()
        self.out = None

    def feed(self):
        """read what is available; True when finished"""
        data = _real_os_read(self.r, 1 << 20)
        if data:
            self.buf += data
            return False
        self.finish()
        return True

    def finish(self):
        _close(self.r)
        try:
            _, st = os.waitpid(self.pid, 0)
        except ChildProcessError:
            st = 0
        if len(self.buf) >= 8 and len(self.buf) - 8 == int.from_bytes(self.buf[:8], "big"):
            self.out = pickle.loads(bytes(self.buf[8:]))
        else:
            self.out = ("err", "Died", "process ended with status %r" % st)

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass


_close = os.close


def in_fork(fn, wall=CASE_WALL):
    """Run fn in a forked process and return its value (raises RuntimeError)."""
    f = Fork(fn)
    while f.out is None:
        left = wall - (_mono() - f.t0)
        if left <= 0:
            f.kill()
            f.finish()
            raise RuntimeError("forked twin stuck")
        r, _, _ = select.select([f.r], [], [], min(left, 5))
        if r:
            f.feed()
    if f.out[0] == "ok":
        return f.out[1]
    raise RuntimeError("%s\n%s" % (f.out[1], f.out[2]))


class Zygote:
    """A process forked now, which later runs functions in fresh forks of itself:
    nothing this process does in between can influence them."""

    def __init__(self):
        self.req_r, self.req_w = os.pipe()
        self.rep_r, self.rep_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            _close(self.req_w)
            _close(self.rep_r)
            try:
                self._serve()
            finally:
                os._exit(0)
        _close(self.req_r)
        _close(self.rep_w)

    def _serve(self):
        while True:
            req = _recv(self.req_r)
            if req is None:
                return
            fn, args = req
            f = Fork(lambda: fn(*args))
            while f.out is None:
                if _mono() - f.t0 > CASE_WALL:
                    f.kill()
                    f.finish()
                    break
                r, _, _ = select.select([f.r], [], [], 5)
                if r:
                    f.feed()
            _send(self.rep_w, f.out)

    def call(self, fn, *args):
        _send(self.req_w, (fn, args))
        out = _recv(self.rep_r)
        if out is None:
            raise RuntimeError("twin process died")
        if out[0] == "ok":
            return out[1]
        raise RuntimeError("%s\n%s" % (out[1], out[2]))

    def close(self):
        for fd in (self.req_w, self.rep_r):
            try:
                _close(fd)
            except OSError:
                pass
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def _recv(fd):
    head = b""
    while len(head) < 8:
        x = _real_os_read(fd, 8 - len(head))
        if not x:
            return None
        head += x
    n = int.from_bytes(head, "big")
    buf = bytearray()
    while len(buf) < n:
        x = _real_os_read(fd, min(1 << 20, n - len(buf)))
        if not x:
            return None
        buf += x
    return pickle.loads(bytes(buf))


# -- one case --------------------------------------------------------------------
def run_case(check, case):
    """Executes a case in this process; returns a picklable record."""
    ctx = Ctx()
    err = None
    try:
        check.execute(case, ctx)
    except Violation as v:
        ctx.fail(v.kind, v.message, **v.detail)
    except Skip as s:
        ctx.skipped = str(s)
    except BaseException as e:
        err = "".join(traceback.format_exception(e))[-5000:]
    rec = dict(violations=ctx.violations, faults=ctx.faults, stats=ctx.stats,
               states=ctx.states, trace=ctx.trace, sim_time=ctx.sim_time,
               nontrivial=ctx.nontrivial, skipped=ctx.skipped, error=err)
    return rec


def pool(check, cases, workers=None, deadline=None, on_result=None, stop=None):
    """Runs cases (index, case) each in its own process; yields (i, record)."""
    workers = workers or WORKERS
    running = {}
    it = iter(cases)
    results = {}
    more = True
    while more or running:
        while more and len(running) < workers:
            if (deadline is not None and _mono() > deadline) or (stop is not None and stop()):
                more = False
                break
            try:
                i, case = next(it)
            except StopIteration:
                more = False
                break
            f = Fork(lambda c=case: run_case(check, c))
            running[f.r] = (f, i)
        if not running:
            break
        ready, _, _ = select.select(list(running), [], [], 2.0)
        for fd in ready:
            f, i = running[fd]
            if f.feed():
                del running[fd]
                results[i] = _rec(f)
                if on_result:
                    on_result(i, results[i])
        now = _mono()
        for fd, (f, i) in list(running.items()):
            if now - f.t0 > CASE_WALL:
                f.kill()
                f.finish()
                del running[fd]
                results[i] = dict(violations=[], faults={}, stats={}, states=[], trace=[],
                                  sim_time=0, nontrivial=False, skipped=None,
                                  error="case stuck for %d s" % CASE_WALL)
                if on_result:
                    on_result(i, results[i])
    return results


def _rec(f):
    if f.out[0] == "ok":
        return f.out[1]
    return dict(violations=[], faults={}, stats={}, states=[], trace=[], sim_time=0,
                nontrivial=False, skipped=None, error="%s: %s" % (f.out[1], f.out[2]))


def fork_case(check, case):
    f = Fork(lambda: run_case(check, case))
    while f.out is None:
        if _mono() - f.t0 > CASE_WALL:
            f.kill()
            f.finish()
            break
        r, _, _ = select.select([f.r], [], [], 2)
        if r:
            f.feed()
    return _rec(f)


# -- known findings ----------------------------------------------------------------
def known_findings(prop):
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as fp:
            entries = json.load(fp)["findings"]
    except FileNotFoundError:
        return []
    return [e for e in entries if e["property"] == prop and e["status"] == "known"]


def is_known(v, known):
    for k in known:
        if k["kind"] == v["kind"] and k.get("match", "") in v["message"]:
            return k
    return None


# -- minimisation --------------------------------------------------------------------
def minimise(check, case, kind, budget=60, wall=60):
    t0 = _mono()
    best, tried = case, 0
    improved = True
    while improved and tried < budget and _mono() - t0 < wall:
        improved = False
        for cand in check.shrink(best):
            if tried >= budget or _mono() - t0 > wall:
                break
            tried += 1
            rec = fork_case(check, cand)
            if any(v["kind"] == kind for v in rec["violations"]):
                best, improved = cand, True
                break
    return best, tried


def shrink_lists(case, keys):
    """generic: drop elements of the named lists"""
    for k in keys:
        v = case.get(k)
        if not isinstance(v, list) or not v:
            continue
        n = len(v)
        size = n
        while size >= 1:
            for a in range(0, n, size):
                if size == n and n == 1 and False:
                    continue
                c = json.loads(json.dumps(case))
                c[k] = v[:a] + v[a + size:]
                if len(c[k]) < n:
                    yield c
            size //= 2


# -- main --------------------------------------------------------------------------------
def load_check(prop):
    mod = importlib.import_module("sim.checks." + prop.lower())
    return mod.Check()


def main_check(prop, tier, seed, n_override=None, verbose=False):
    t0 = _mono()
    check = load_check(prop)
    check.setup()
    n = n_override or (check.quick_runs if tier == "quick" else check.thorough_runs)
    wall = check.quick_wall if tier == "quick" else check.thorough_wall
    agg = dict(runs=0, skipped=0, nontrivial=0, faults={}, stats={}, states=set(), sim=0.0,
               cases=set(), errors=[], viol=[], skips={})
    known = known_findings(prop)
    found = {}

    def gen():
        for i in range(n):
            yield i, check.generate(rng_for(seed, prop, i), i, tier)
    casebox = {}

    def gen2():
        for i, c in gen():
            casebox[i] = c
            yield i, c

    hit = {"new": 0}

    def on(i, rec):
        agg["runs"] += 1
        case = casebox.pop(i)
        if rec["error"]:
            agg["errors"].append((i, rec["error"]))
        if rec["skipped"]:
            agg["skipped"] += 1
            agg["skips"][rec["skipped"][:80]] = agg["skips"].get(rec["skipped"][:80], 0) + 1
        cd = digest(case)
        if rec["nontrivial"] and cd not in agg["cases"]:
            agg["nontrivial"] += 1
        agg["cases"].add(cd)
        for k, v in rec["faults"].items():
            agg["faults"][k] = agg["faults"].get(k, 0) + v
        for k, v in rec["stats"].items():
            agg["stats"][k] = agg["stats"].get(k, 0) + v
        agg["states"].update(rec["states"])
        agg["sim"] += rec["sim_time"]
        if rec["violations"]:
            agg["viol"].append((i, case, rec))
            if any(not is_known(v, known) for v in rec["violations"]):
                hit["new"] += 1
        if len(agg.setdefault("samples", [])) < 3 and rec["nontrivial"] and not rec["violations"]:
            agg["samples"].append({"run": i, "case": _short(case), "trace": rec["trace"][:12]})
        if verbose:
            tag = "VIOL" if rec["violations"] else "err" if rec["error"] else "skip" if rec["skipped"] else "ok"
            print(i, tag, rec["skipped"] or "", [v["kind"] for v in rec["violations"]], rec["faults"],
                  file=sys.stderr)
            if rec["error"]:
                print(rec["error"], file=sys.stderr)
            for v in rec["violations"]:
                print("   ", v["kind"], v["message"][:1500], v["detail"], file=sys.stderr)

    pool(check, gen2(), deadline=t0 + wall, on_result=on, stop=lambda: hit["new"] >= 4)
    explore_s = _mono() - t0
    # judge
    status = 0
    lines = []
    known_seen = {}
    agg["viol"].sort(key=lambda x: x[0])
    reported = set()
    for i, case, rec in agg["viol"]:
        for v in rec["violations"]:
            k = is_known(v, known)
            if k is not None:
                known_seen[k["id"]] = k
                continue
            if v["kind"] in reported:
                continue
            if len(reported) >= 2:
                continue
            rerun = fork_case(check, case)
            if not any(x["kind"] == v["kind"] for x in rerun["violations"]):
                agg["errors"].append((i, "violation %s of run %d did not reproduce: %s"
                                      % (v["kind"], i, v["message"][:600])))
                continue
            reported.add(v["kind"])
            best, tried = minimise(check, case, v["kind"])
            final = fork_case(check, best)
            fv = [x for x in final["violations"] if x["kind"] == v["kind"]]
            fv = fv[0] if fv else v
            path = write_replay(prop, seed, i, best, final if final["violations"] else rec, fv, tried)
            lines.append("%s: %s" % (fv["kind"], fv["message"][:1500]))
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
            status = 1
    for k in known_seen.values():
        lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if status == 0 and agg["errors"] and len(agg["errors"]) > 0:
        status = 2
    for i, e in agg["errors"][:3]:
        print("harness error in run %d (VERIF_SEED=%d): %s" % (i, seed, e), file=sys.stderr)
    wall_s = _mono() - t0
    hours = max(explore_s, 1e-6) / 3600.0
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": agg["nontrivial"],
        "rule": check.rule,
        "samples": agg.get("samples") or [{"note": "no non-trivial run without a violation"}],
        "simulated_runs": agg["runs"],
        "runs_planned": n,
        "runs_skipped": agg["skipped"],
        "skip_reasons": agg["skips"],
        "seeds_per_hour": round(agg["runs"] / hours),
        "simulated_time_s": round(agg["sim"], 1),
        "simulated_time_note": check.sim_time_note,
        "faults_injected": dict(sorted(agg["faults"].items())),
        "distinct_states": len(agg["states"]),
        "distinct_states_measure": check.state_note,
        "counters": dict(sorted(agg["stats"].items())),
        "components_real": check.real,
        "components_stubbed": check.stubs,
        "harness_errors": len(agg["errors"]),
        "known_findings_seen": sorted(known_seen),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": check.assumptions, "wall_s": round(wall_s, 2),
          "violations": len(reported)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", prop + ".json.new")
    with open(tmp, "w") as fp:
        json.dump(ev, fp, indent=1, default=repr)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    for ln in lines:
        print(ln)
    print("%s %s seed=%d: %d runs (%d non-trivial, %d skipped), %d faults, %d distinct states, %.1f s -> %s"
          % (prop, tier, seed, agg["runs"], agg["nontrivial"], agg["skipped"],
             sum(agg["faults"].values()), len(agg["states"]), wall_s,
             {0: "held", 1: "VIOLATED", 2: "harness error"}[status]))
    return status


def _short(case, lim=1500):
    s = json.dumps(case, default=repr)
    return case if len(s) <= lim else s[:lim] + "..."


def write_replay(prop, seed, i, case, rec, v, tried):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop, "kind": v["kind"], "message": v["message"], "detail": v["detail"],
            "seed": seed, "run": i, "case": case, "trace": rec["trace"],
            "minimisation_runs": tried,
            "how": "check.sh replay <this file>  (exit 1 and the same VIOLATION when it reproduces)"}
    path = os.path.join(d, "%s-seed%d-run%d-%s.json" % (prop, seed, i, digest([case, v["kind"]])[:8]))
    with open(path, "w") as fp:
        json.dump(body, fp, indent=1, default=repr)
    return path


def main_replay(path):
    with open(path) as fp:
        body = json.load(fp)
    check = load_check(body["property"])
    check.setup()
    rec = fork_case(check, body["case"])
    if rec["error"]:
        print("harness error: " + rec["error"], file=sys.stderr)
        return 2
    for ln in rec["trace"]:
        print("  " + ln)
    for v in rec["violations"]:
        print("%s: %s" % (v["kind"], v["message"]))
    if any(v["kind"] == body["kind"] for v in rec["violations"]):
        same = "exactly" if any(v["message"] == body["message"] for v in rec["violations"]) else "kind only"
        print("reproduced (%s)" % same)
        print("VIOLATION property=%s replay=%s" % (body["property"], path))
        return 1
    print("not reproduced")
    return 0
