"""Snapshots and comparisons of results."""
import math
import re

import numpy as np

_ADDR = re.compile(r" at 0x[0-9a-fA-F]+")


def scrub(text):
    return _ADDR.sub("", text)


def plain(v, depth=0):
    """numbers, strings and containers only"""
    if v is None or isinstance(v, (bool, str, bytes)):
        return v
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return float(v)
    if isinstance(v, np.ndarray):
        return [plain(x, depth + 1) for x in v.tolist()]
    if isinstance(v, (list, tuple)):
        return [plain(x, depth + 1) for x in v]
    if isinstance(v, dict):
        return {"d": [[plain(k), plain(x, depth + 1)] for k, x in v.items()]}
    return repr(v)


def close(a, b, rel=1e-9, ab=1e-9, path=""):
    """'' when equal, else where and how they differ"""
    if isinstance(a, float) or isinstance(b, float):
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)) \
                or isinstance(a, bool) or isinstance(b, bool):
            return "%s: %r != %r" % (path, a, b)
        if a == b or (math.isnan(a) and math.isnan(b)):
            return ""
        if math.isfinite(a) and math.isfinite(b) and abs(a - b) <= max(ab, rel * max(abs(a), abs(b))):
            return ""
        return "%s: %r != %r" % (path, a, b)
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: length %d != %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = close(x, y, rel, ab, "%s[%d]" % (path, i))
            if r:
                return r
        return ""
    if isinstance(a, dict) and isinstance(b, dict):
        if a.keys() != b.keys():
            return "%s: keys differ" % path
        for k in a:
            r = close(a[k], b[k], rel, ab, "%s.%s" % (path, k))
            if r:
                return r
        return ""
    if isinstance(a, str) and isinstance(b, str):
        if a == b:
            return ""
        la, lb = a.splitlines(), b.splitlines()
        for i, (x, y) in enumerate(zip(la, lb)):
            if x != y:
                return "%s line %d: %r != %r" % (path, i + 1, x[:120], y[:120])
        return "%s: %d lines != %d lines" % (path, len(la), len(lb))
    if a != b or type(a) is not type(b):
        return "%s: %r != %r" % (path, _s(a), _s(b))
    return ""


def _s(x):
    s = repr(x)
    return s if len(s) < 120 else s[:120] + "..."


def snap(obj, depth=0, seen=None, skip=()):
    """Deep snapshot of public data attributes of caller-owned objects."""
    seen = seen or ()           # objects being visited (cycles only)
    if obj is None or isinstance(obj, (bool, str, bytes, int, float, np.floating, np.integer)):
        return plain(obj)
    if isinstance(obj, type) or callable(obj) and not hasattr(obj, "__dict__"):
        return "<%s>" % getattr(obj, "__name__", "callable")
    if id(obj) in seen:
        return "<cycle>"
    seen = seen + (id(obj),)
    if isinstance(obj, np.ndarray):
        return plain(obj)
    if isinstance(obj, (list, tuple)):
        if len(obj) > 200 and all(isinstance(x, float) for x in obj):
            return {"n": len(obj), "vals": [float(x) for x in obj]}
        return [snap(x, depth + 1, seen) for x in obj]
    if isinstance(obj, dict):
        return {"d": [[snap(k, depth + 1, seen), snap(v, depth + 1, seen)] for k, v in obj.items()]}
    if hasattr(obj, "__dict__"):
        if depth > 6:
            return type(obj).__name__
        out = {}
        for k in sorted(vars(obj)):
            if k.startswith("_") or k in skip:
                continue
            out[k] = snap(vars(obj)[k], depth + 1, seen)
        return {"class": type(obj).__name__, "attrs": out}
    return scrub(repr(obj))


def snap_diff(before, after, path=""):
    """Differences in what existed before (attributes added later are ignored)."""
    if isinstance(before, dict) and isinstance(after, dict):
        if "attrs" in before and "attrs" in after:
            if before["class"] != after["class"]:
                return "%s: class %s != %s" % (path, before["class"], after["class"])
            for k, v in before["attrs"].items():
                if k not in after["attrs"]:
                    return "%s.%s: removed" % (path, k)
                r = snap_diff(v, after["attrs"][k], path + "." + k)
                if r:
                    return r
            return ""
        if before.keys() != after.keys():
            return "%s: keys differ" % path
        for k in before:
            r = snap_diff(before[k], after[k], path + ("" if k in ("d", "vals") else "." + str(k)))
            if r:
                return r
        return ""
    if isinstance(before, list) and isinstance(after, list):
        if len(before) != len(after):
            return "%s: length %d -> %d" % (path, len(before), len(after))
        for i, (x, y) in enumerate(zip(before, after)):
            r = snap_diff(x, y, "%s[%d]" % (path, i))
            if r:
                return r
        return ""
    if isinstance(before, float) and isinstance(after, float) and math.isnan(before) and math.isnan(after):
        return ""
    if type(before) is not type(after) or before != after:
        return "%s: %s -> %s" % (path, _s(before), _s(after))
    return ""


def exc_name(e):
    return type(e).__name__


# -- what a ground heat exchanger answers ------------------------------------------
def results_of(ghe, with_repr=True):
    """Public observable answers of an exchanger in its present state."""
    out = {"H": float(ghe.bhe.b.H), "nbh": float(ghe.nbh),
           "HPEFT": plain(list(ghe.HPEFT)), "dTb": plain(list(ghe.dTb)),
           "Rb": float(ghe.bhe.compute_effective_borehole_resistance()),
           "coords": plain(ghe.GFunction.bore_locations)}
    g = ghe.grab_g_function(ghe.B_spacing / ghe.bhe.b.H)
    out["gx"], out["gy"] = plain(g.x), plain(g.y)
    if with_repr:
        out["repr"] = scrub(repr(ghe))
    return out
