#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]"""
import importlib, os, sys
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    import common
    m = importlib.import_module("checks." + pid.lower())
    ctx = common.Ctx(pid, tier)
    try:
        m.check(ctx)
    except Exception as e:      # what was decided so far stands; the rest is reported as not decided
        import traceback
        traceback.print_exc()
        ctx.unk("analysis", "check", "stopped by %s: %s" % (type(e).__name__, e))
    sys.exit(common.finish(ctx, m.TECHNIQUE, m.EXPLANATION, getattr(m, "ASSUMPTIONS", ())))


main()
