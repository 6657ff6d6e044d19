#!/usr/bin/env python3
"""python3 check.py <property>   runs one check (VERIF_TIER, VERIF_SEED); python3 check.py --setup checks the toolchain."""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "props")]
import common

def main():
    if sys.argv[1] == "--setup":
        import setup_check
        return setup_check.main()
    prop = sys.argv[1]
    ctx = common.Ctx(prop)
    try:
        m = importlib.import_module(prop.lower())
        (m.main if hasattr(m, "main") else m.run)(ctx)
        return ctx.finish()
    except common.Inconclusive as e:
        # what the monitors saw before giving up still counts as a violation, nothing else does
        if ctx.violations: return ctx.finish()
        print("INCONCLUSIVE:", e)
        return 2
    except Exception:
        traceback.print_exc()
        if ctx.violations: return ctx.finish()
        return 2

if __name__ == "__main__":
    sys.exit(main())
