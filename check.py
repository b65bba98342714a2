#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property on /repo's tree."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import common, scale
import checks


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    fn, level = checks.CHECKS[prop]
    ctx = common.Ctx(prop, tier, seed, level)
    try:
        fn(ctx)
        scale.scaled(ctx, prop, lines=prop in ("C21", "C22"))
    except Exception:
        traceback.print_exc()
        print("check error: %s" % prop)
        return 3
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main())
