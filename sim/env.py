"""Puts the seams in place and imports ghedt from the repository."""
import os
import sys
import warnings

REPO = os.environ.get("GHEDT_REPO", "/repo")
G = {}          # "mode": "surrogate" | "real", "calls": n, "budget": n|None, "perturb": fn|None


def boot():
    if G:
        return
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import matplotlib
    matplotlib.use("Agg")
    import numpy as np
    np.seterr(all="ignore")
    import pandas                      # noqa: F401  (third party before the seams)
    import scipy.interpolate           # noqa: F401
    import scipy.optimize              # noqa: F401
    import pygfunction as gt
    from . import clock, sched, surrogate, vfs
    clock.install()
    sched.install()
    vfs.install()
    G.update(mode="surrogate", calls=0, budget=None, perturb=None, log=None)
    surrogate.install(gt, G)
    surrogate.memo_multipole(gt)
    import ghedt                       # noqa: F401
    import ghedt.peak_load_analysis_tool   # noqa: F401
    where = os.path.realpath(ghedt.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit("ghedt imported from %s, not from %s" % (where, REPO))
    sys.unraisablehook = lambda a: None
