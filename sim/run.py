import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import core, env          # noqa: E402

if "C10" in " ".join(sys.argv[1:3]):        # (before ghedt is imported)
    from sim import place
    place.reserve()
env.boot()


def main(argv):
    if argv[0] == "replay":
        return core.main_replay(argv[1])
    if argv[0] == "selftest":
        print("simulator boots on", env.REPO)
        return 0
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    n = None
    verbose = False
    for a in argv[1:]:
        if a in ("quick", "thorough"):
            tier = a
        elif a.startswith("n="):
            n = int(a[2:])
        elif a.startswith("seed="):
            seed = int(a[5:])
        elif a == "-v":
            verbose = True
    return core.main_check(prop, tier, seed, n, verbose)


if __name__ == "__main__":
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
