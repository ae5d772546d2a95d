"""Stand-in for the external long-time g-function solver (pygfunction).

Deterministic, cheap, and sensitive to everything the real one depends on:
borehole positions, length, burial depth and radius, diffusivity, times, and
the mass flow of the network.  Real pygfunction is used instead in the runs
whose case says so.
"""
import hashlib
import pickle

import numpy as np
from scipy.special import exp1


class EvaluationBudget(BaseException):
    pass


def response(boreholes, alpha, time, m_flow):
    xy = np.array([[b.x, b.y] for b in boreholes], dtype=float)
    H, D, rb = boreholes[0].H, boreholes[0].D, boreholes[0].r_b
    t = np.asarray(time, dtype=float)
    ts = H * H / (9.0 * alpha)
    te = t / (1.0 + t / (2.0 * ts))          # finite length: approaches steady state
    d = np.sqrt(((xy[:, None, :] - xy[None, :, :]) ** 2).sum(-1))
    np.fill_diagonal(d, rb)
    # group equal distances (to keep large fields cheap)
    u, cnt = np.unique(np.round(d, 6), return_counts=True)
    u[0] = max(u[0], 1e-3)
    g = (cnt[:, None] * 0.5 * exp1(u[:, None] ** 2 / (4.0 * alpha * te[None, :]))).sum(0) / len(xy)
    g = g * (1.0 + 2e-4 * D) * (1.0 - 2e-3 * np.tanh(m_flow if m_flow is not None else 0.7))
    return g


def minor(net, boundary, options, method):
    """small factor for all the other things the real solver depends on"""
    out = 1.0
    pipes = getattr(net, "p", None)
    if pipes:
        p = pipes[0]
        n = min(getattr(p, "n_pipes", getattr(p, "nPipes", 1)) or 1, 4)
        R = np.asarray(getattr(p, "_Rd", [[0.1]]), dtype=float)
        out *= 1.0 - 4e-3 * np.tanh(2.0 * R[0, 0] + R.sum() + 0.1 * n) - 1e-3 * np.tanh(getattr(p, "k_s", 2.0) / 4.0)
        cp = getattr(net, "cp_f", None)
        if cp is not None:
            out *= 1.0 + 1e-3 * np.tanh(float(np.mean(cp)) / 4000.0)
    o = options or {}
    ratios = o.get("segment_ratios")
    r = 0.0 if ratios is None or callable(ratios) else float(np.asarray(ratios, dtype=float)[:1].sum())
    out *= 1.0 + 1e-4 * float(np.sum(o.get("nSegments", 8))) + 1e-3 * r
    return out * (1.0 + 1e-4 * (len(str(boundary)) + len(str(method))))


class SurrogateG:
    def __init__(self, boreholes_or_network, alpha, time=None, boundary_condition="UBWT",
                 options=None, method="equivalent", **kw):
        net = boreholes_or_network
        m = None
        if hasattr(net, "b") and not hasattr(net, "H"):
            bores = net.b
            m = getattr(net, "m_flow_network", None)
            if m is not None:
                m = float(np.sum(m)) / len(bores)
        elif isinstance(net, (list, tuple)):
            bores = net
        else:
            bores = [net]
        self.boreholes = bores
        self.time = time
        self.gFunc = response(bores, alpha, time, m) * minor(net, boundary_condition, options, method)


def field_key(bores):
    xy = sorted((round(b.x, 6), round(b.y, 6)) for b in bores)
    return hashlib.sha256(repr(xy).encode()).hexdigest()


def install(gt, G):
    real = gt.gfunction.gFunction

    def gFunction(boreholes_or_network, alpha, *a, **k):
        G["calls"] += 1
        if G["budget"] is not None and G["calls"] > G["budget"]:
            raise EvaluationBudget()
        if G["log"] is not None:
            b = getattr(boreholes_or_network, "b", boreholes_or_network)
            G["log"].append((len(b), float(b[0].H)))
        if G["mode"] == "real":
            return real(boreholes_or_network, alpha, *a, **k)
        s = SurrogateG(boreholes_or_network, alpha, *a, **k)
        if G["perturb"] is not None:
            s.gFunc = s.gFunc * G["perturb"](s.boreholes)
        return s
    gFunction.real = real
    gFunction.__module__ = "pygfunction.gfunction"
    gt.gfunction.gFunction = gFunction


def memo_multipole(gt):
    """The external multipole solution as a pure function of its arguments.

    pygfunction keeps its last solution in a module-level dictionary and returns
    it again for arguments that are merely close (1e-6, R_fp 1e-5), so its answer
    depends on whatever the process (any thread of it) asked before.  That
    dictionary is emptied before every evaluation; equal arguments are memoised.
    """
    real = gt.pipes.thermal_resistances
    last = getattr(gt.pipes, "_thermal_resistances_dict", {})
    memo = {}

    def thermal_resistances(*a, **k):
        key = pickle.dumps((a, sorted(k.items())))
        hit = memo.get(key)
        if hit is None:
            for name in last:
                last[name] = None
            hit = real(*a, **k)
            if len(memo) > 20000:
                memo.clear()
            memo[key] = tuple(np.array(x) for x in hit)
        return tuple(np.array(x) for x in memo[key])
    thermal_resistances.__module__ = real.__module__
    thermal_resistances.__doc__ = real.__doc__
    gt.pipes.thermal_resistances = thermal_resistances
