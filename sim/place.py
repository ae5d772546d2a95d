"""The places a program may look at without being told to: working directory, home, temporary directory.

reserve() is called before ghedt is imported and makes home and temporary directory
links that resolve per process (/proc/self/fd/N), so that each process of a run can be
given places of its own whatever was remembered at import; settle(d) does that.
watch() records which files below them ghedt code looks for, and planted() puts some there.
"""
import io
import json
import os
import sys
import tempfile

FDS = {"home": 200, "tmp": 201}
CONTENT = ["{}", "[]", "[[[3.0, 3.0], [12.0, 3.0], [12.0, 11.0], [3.0, 11.0]]]",
           "[[3.0, 3.0], [12.0, 3.0], [12.0, 11.0], [3.0, 11.0]]", "1\n", "not ours\n", "[0.5, 0.25, 7.0]", "", "3.25", "true"]
_reserved = False


def reserve(base=None):
    global _reserved
    if not os.path.isdir("/proc/self/fd"):
        return
    d = base or ("/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp")
    f = os.open(d, os.O_RDONLY)
    for n in FDS.values():
        os.dup2(f, n, inheritable=False)
    os.close(f)
    os.environ["TMPDIR"] = "/proc/self/fd/%d" % FDS["tmp"]
    os.environ["HOME"] = "/proc/self/fd/%d" % FDS["home"]
    tempfile.tempdir = None
    _reserved = True


def settle(d):
    """working directory, home and temporary directory of this process from now on -> {"cwd":, "home":, "tmp":}"""
    at = {}
    for k in ("cwd", "home", "tmp"):
        at[k] = os.path.join(d, k)
        os.makedirs(at[k], exist_ok=True)
        if k in FDS:
            if _reserved:
                f = os.open(at[k], os.O_RDONLY)
                os.dup2(f, FDS[k], inheritable=False)
                os.close(f)
            else:
                os.environ["HOME" if k == "home" else "TMPDIR"] = at[k]
                tempfile.tempdir = None
    for v in ("XDG_CACHE_HOME", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "TMP", "TEMP"):
        os.environ.pop(v, None)
    os.chdir(at["cwd"])
    return at


class Keys(dict):
    """stands for the content of a settings file of unknown keys, and remembers those asked for"""
    seen = set()

    def get(self, k, default=None):
        Keys.seen.add(str(k))
        return default

    def __contains__(self, k):
        Keys.seen.add(str(k))
        return False

    def __missing__(self, k):
        Keys.seen.add(str(k))
        return 1


def watch(at):
    """from now on, which files below `at` are looked for -> (looked, written): sets of (place, relative path)"""
    looked, written = set(), set()
    roots = [(k, os.path.realpath(v)) for k, v in at.items()]

    def note(p, box):
        try:
            if isinstance(p, int):
                return
            q = os.fspath(p)
            if isinstance(q, bytes):
                q = os.fsdecode(q)
            q = os.path.join(os.path.realpath(os.path.dirname(os.path.join(os.getcwd(), q))), os.path.basename(q))
        except (TypeError, OSError, ValueError):
            return
        for k, r in roots:
            if q.startswith(r + os.sep):
                box.add((k, q[len(r) + 1:]))

    busy = []

    def quietly(p, box):
        if not busy:
            busy.append(1)
            try:
                note(p, box)
            finally:
                busy.pop()

    def wrap(mod, name, box=looked):
        real = getattr(mod, name)

        def f(path, *a, **k):
            quietly(path, box)
            return real(path, *a, **k)
        setattr(mod, name, f)
    for n in ("stat", "lstat", "access", "listdir", "scandir"):
        wrap(os, n)
    for n in ("rename", "replace", "remove", "unlink", "mkdir"):
        wrap(os, n, written)

    def hook(event, args):
        if event == "open" and args:
            mode, flags = (args[1] or ""), (args[2] if len(args) > 2 and isinstance(args[2], int) else 0)
            w = any(x in str(mode) for x in "wax+") or flags & (os.O_WRONLY | os.O_RDWR)
            quietly(args[0], written if w else looked)
    sys.addaudithook(hook)
    return looked, written


def log_keys():
    real = json.JSONDecoder.decode

    def decode(self, *a, **k):
        r = real(self, *a, **k)
        return Keys(r) if r == {} and isinstance(r, dict) else r
    json.JSONDecoder.decode = decode


def plant(at, paths, seed, keys=()):
    """files where ghedt was seen to look; returns what was put there"""
    put = []
    for n, (k, rel) in enumerate(sorted(paths)):
        p = os.path.join(at[k], rel)
        if os.path.lexists(p):
            continue
        body = CONTENT[(seed + n) % len(CONTENT)]
        if keys and body == "{}":
            body = json.dumps({x: [2, 0.5, True, "x", 40][(seed + i) % 5] for i, x in enumerate(sorted(keys))})
        try:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with io.open(p, "w") as f:
                f.write(body)
        except OSError:
            continue
        put.append((k, rel, body[:40]))
    return put

