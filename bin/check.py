#!/usr/bin/env python3
"""check.py <property> [quick|thorough]  -- exit 0: held, 1: violation, 2: the check could not be carried out"""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "props")]
import core, suite


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = core.Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module(prop.lower())
        assumptions = mod.check(ctx) or []
        rc = suite.conclude(ctx, assumptions)
    except core.CheckError as e:
        print("ERROR: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.cleanup()
    print("%s %s seed=%s: exit %d, %d executions, %d traces judged, %d TLC states, %.1f s" % (
        prop, tier, seed, rc, ctx.executions, ctx.traces, ctx.states, __import__("time").time() - ctx.t0))
    return rc


if __name__ == "__main__":
    sys.exit(main())
