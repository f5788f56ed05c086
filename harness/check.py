#!/usr/bin/env python3
"""usage: check.py C03 [quick|thorough]"""
import importlib
import os
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import build  # noqa: E402
import core   # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("p_" + prop.lower())
    chk = core.Check(prop, tier, seed)
    shutil.rmtree(os.path.join(core.VERIF, "evidence", "replays", prop), ignore_errors=True)
    try:
        mod.check(chk)
    except build.BuildError as e:
        print("ERROR: %s" % e)
        return 3
    return chk.finish()


if __name__ == "__main__":
    sys.exit(main())
