#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]: decides one property on /repo's working tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vf, tlc


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = vf.Ctx(prop, "thorough" if tier == "thorough" else "quick", seed)
    import props
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            props.replay(c, sys.argv[3])
            return 1 if c.violations else 0
        props.CHECKS[prop](c)
    except (vf.HarnessError, tlc.TlcError) as e:
        print("ERROR: %s" % e)
        if c.violations:      # what was found before still counts
            c.finish()
            return 1
        return 3
    except Exception:
        traceback.print_exc()
        if c.violations:
            c.finish()
            return 1
        return 3
    return c.finish()


sys.exit(main())
