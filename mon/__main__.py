import argparse, importlib, os, sys
ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--replay")
a = ap.parse_args()
if a.replay:
    a.replay = os.path.join(os.environ.get("VERIF_CWD", "."), a.replay)
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
import warnings
warnings.filterwarnings("ignore")
repo = os.environ.get("VERIF_REPO", "/repo")
if repo not in sys.path:
    sys.path.insert(0, repo)
try:
    import torch
    torch.set_num_threads(1)
    import deepquantum
    if not os.path.realpath(deepquantum.__file__).startswith(os.path.realpath(repo) + os.sep):
        raise ImportError("deepquantum imported from " + deepquantum.__file__)
    from . import lib
    mod = importlib.import_module("mon.checks." + a.prop.lower())
except Exception:
    import traceback
    traceback.print_exc()
    print("%s: INCONCLUSIVE the code under test could not be imported" % a.prop)
    sys.exit(2)
try:
    rc = lib.main(mod, a.tier, seed, a.replay)
except SystemExit:
    raise
except BaseException:
    import traceback
    traceback.print_exc()
    print("%s: INCONCLUSIVE harness error" % a.prop)
    rc = 2
sys.stdout.flush()
os._exit(rc)
