"""Documents, designs and savers used by the file checks."""
import json
import os
import shutil
import tempfile

from . import core, vfs, world

_scratch_base = None


def scratch():
    """A private directory for one run (removed by Scratch)."""
    global _scratch_base
    if _scratch_base is None:
        _scratch_base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    return tempfile.mkdtemp(prefix="ghedt-sim-", dir=_scratch_base)


class Scratch:
    def __enter__(self):
        self.path = scratch()
        return self.path

    def __exit__(self, *a):
        vfs.SIM = None
        os.chdir("/")
        shutil.rmtree(self.path, ignore_errors=True)
        return False


NAMES = ["out", "ghedt_input", "a.b", "run 1", "r\u00e9sultat", "x.json", "deep/er/out", "UPPER"]


# names beside a file that programs use for copies, leftovers, locks and the like
NEAR = ["{p}.bak", "{p}~", "{p}.tmp", "{p}.old", "{p}.orig", "{p}.1", "{b}.bak", "{b}.old{e}", "{b}_old{e}", "{b}-1{e}",
        "{b}.bak{e}", "{b}_backup{e}", "{b}_prev{e}", "{b}", "{d}/.{n}", "{d}/.{n}.swp", "{d}/#{n}#", "{d}/backup/{n}",
        "{d}/.backup/{n}", "{p}.0123456789abcdef0123456789abcdef.tmp", "{p}{e}", "{p}.part", "{p}.new", "{p}.lock",
        "{d}/tmp{n}", "{d}/other{e}", "{d}/ghedt_input.obj", "{d}/ghedt_output.json", "{b}.pkl", "{b}.pickle", "{b}.json",
        "{b}.obj", "{b}.JSON", "{p}.save", "{p}.gz", "{p}.previous", "{p}.copy", "{b} (1){e}"]


def near(pattern, base, ext):
    d, n = os.path.split(base + ext)
    return pattern.format(p=base + ext, b=base, e=ext, E=ext.upper(), d=d, n=n)


def draw_doc(rng, version=0):
    """a JSON document: nested, sizes from a few bytes to well over a buffer"""
    def val(d):
        r = rng.random()
        if d < 3 and r < 0.3:
            return {("k%d" % i): val(d + 1) for i in range(rng.randint(0, 5))}
        if d < 3 and r < 0.5:
            return [val(d + 1) for _ in range(rng.randint(0, 6))]
        return rng.choice([rng.random() * 1e3, rng.randint(-10**9, 10**9), None, True, "t" * rng.randint(0, 30),
                           "\u00fcml\u00e4ut \"q\" \\ \n", -0.0, 1e-300])
    d = {"version": version, "body": val(0), "pad": [rng.random() for _ in range(rng.choice([0, 3, 40, 900, 2500]))]}
    return d


def tiny_design(spec):
    """A Design with short loads: cheap to build, real class, real domains."""
    o = world.make_inputs_no_loads(spec["inp"])
    o["sim_params"] = world._M.SimulationParameters(1, spec["inp"]["months"], spec["inp"]["maxE"],
                                                    spec["inp"]["minE"], spec["inp"]["maxH"],
                                                    spec["inp"]["minH"])
    n = spec.get("nload", 200)
    o["loads"] = [float((i * 37 + spec.get("version", 0)) % 101) - 50.0 for i in range(n)]
    o["geo"] = world.make_constraints(spec)
    return world.make_design(spec, o)


class FakeSearch:
    """What an export needs of a finished search."""

    def __init__(self, ghe, coords):
        self.ghe, self.selected_coordinates = ghe, coords


_pre = {}


def prebuild(n=2):
    """exchangers shared by all runs (forked copies, so runs stay independent)"""
    for i in range(n):
        rng = core.rng_for("prebuilt", i)
        for _ in range(5):
            spec = world.draw_spec(rng, kind=world.KINDS[i % 3], curves=3)
            spec["inp"]["months"] = 12
            try:
                ghe, o, lib = world.build(spec)
                ghe.simulate()
            except ValueError:
                continue
            _pre[i] = (ghe, spec)
            break


def prebuilt(i):
    if not _pre:
        prebuild()
    if not _pre:
        raise core.Skip("no exchanger could be built")
    k = sorted(_pre)[i % len(_pre)]
    return _pre[k]


# the functions a user calls, looked up at call time
def api():
    import ghedt as dt
    return dt


def save_json(path, doc, indent=4):
    api().utilities.js_dump(path, doc, indent=indent)


def save_obj(path, obj):
    api().utilities.create_input_file(obj, file_name=path)


def save_export(path, search):
    api().search_routines.oak_ridge_export(search, file_name=path)


def load_json(path):
    return api().utilities.js_load(path)


def load_obj(path):
    return api().utilities.read_input_file(path)


def read_bytes(path):
    try:
        with vfs._real["open"](path, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def resolve_faults(draws, oplog):
    """Turn seeded positions into concrete faults for the observed operations."""
    out = []
    n = len(oplog)
    for d in draws:
        if not n:
            break
        if d.get("want"):
            idx = [i for i, (k, _) in enumerate(oplog) if k == d["want"]]
            if not idx:
                idx = list(range(n))
        else:
            idx = list(range(n))
        i = idx[int(d["pos"] * len(idx)) % len(idx)]
        kinds = vfs.FAULTS.get(oplog[i][0], [])
        if d.get("only"):
            kinds = [k for k in kinds if k in d["only"]]
        if not kinds:
            continue
        what = kinds[int(d["sel"] * len(kinds)) % len(kinds)]
        out.append({"op": i, "what": what, "frac": d["frac"]})
    return out


def draw_fault(rng, want=None):
    w = want or rng.choice([None, None, None, "write", "write", "rename", "fsync", "close-w", "open-w"])
    return {"pos": round(rng.random(), 5), "sel": round(rng.random(), 5), "frac": round(rng.random(), 3),
            "want": w}
