#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import importlib, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "props")]
import sxlib

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    mod = importlib.import_module(prop)
    env = sxlib.Env(prop)
    try:
        if not env.ok:
            print("the compiler could not be encoded:", env.err)
            r = sxlib.Runner(env, tier, seed, 0)
            return sxlib.finish(prop, tier, seed, getattr(mod, "LEVEL", "model_checking"), r, mod.BOUNDS, mod.ASSUMPTIONS, t0, extra={"not_encoded": env.err})
        budget = getattr(mod, "BUDGET", {"quick": 150, "thorough": 840})[tier]
        r = sxlib.Runner(env, tier, seed, budget)
        only = os.environ.get("SX_ONLY")
        scs = list(mod.scenarios(tier, seed))
        if only:
            import re
            scs = [s for s in scs if re.search(only, s.name)]
        r.run(scs)
        r.validate(5 if tier == 'quick' else 12)
        return sxlib.finish(prop, tier, seed, getattr(mod, "LEVEL", "model_checking"), r, mod.BOUNDS, mod.ASSUMPTIONS, t0, require=getattr(mod, "REQUIRE", None))
    finally:
        if not os.environ.get("SX_KEEP"):
            env.close()
        else:
            print("kept", env.dir)

sys.exit(main())
