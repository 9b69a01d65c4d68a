"""run.py <property id> [...]: decide properties on /repo's working tree."""
import importlib
import os
import sys
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vp import core  # noqa: E402

sys.path.insert(0, core.REPO)
sys.path.insert(0, os.path.join(HERE, "vp", "stubs"))
os.chdir(core.REPO)
import warnings  # noqa: E402
warnings.simplefilter("ignore")
import logging  # noqa: E402
logging.disable(logging.CRITICAL)


def run(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    bounds, assumptions = {}, ()
    try:
        mod = importlib.import_module("vp.checks.%s" % pid.lower())
        bounds = mod.bounds(tier)
        assumptions = getattr(mod, "ASSUMPTIONS", ())
        # The exploration is exhaustive, so the seed can only permute the
        # order in which shards are handed out.
        shards = list(mod.shards(tier))
        k = seed % len(shards)
        shards = shards[k:] + shards[:k]
        merged = core.explore(mod.explore, shards, tier)
    except Exception:
        merged = core.Ctx(tier)
        merged.violate("check could not run on this tree",
                       {"traceback": traceback.format_exc()})
    return core.finish(pid, tier, seed, merged, bounds, t0, assumptions)


if __name__ == "__main__":
    codes = [run(p) for p in sys.argv[1:]]
    sys.stdout.flush()
    os._exit(1 if any(codes) else 0)
