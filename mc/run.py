"""python -m mc.run C01 [--tier quick|thorough] [--replay FILE] [--procs N]"""
import argparse
import importlib
import json
import os
import sys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--procs", type=int, default=8)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or 0)  # recorded only: nothing here is random
    from . import repo, core
    if a.prop == "build":
        print(repo.build())
        return 0
    try:
        bdir = repo.build()
    except repo.BuildError as e:
        print("harness error: %s" % e, file=sys.stderr)
        return 2
    os.environ["VERIF_EXT_DIR"] = bdir
    repo.use(True, bdir)
    mod = importlib.import_module("mc.checks." + a.prop.lower())
    only = None
    tier = a.tier
    if a.replay:
        r = json.load(open(a.replay))
        only, tier = r["case"], r["tier"]
    return core.run_check(mod, a.prop, tier, seed, a.procs, only)


if __name__ == "__main__":
    sys.exit(main())
