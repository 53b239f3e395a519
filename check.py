#!/usr/bin/env python3
"""check.py ID: decides one property of /repo's current tree. Tier and seed come from VERIF_TIER and VERIF_SEED."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib
from vlib import Ctx, Broken
import checks


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = checks.CHECKS[prop]
    x = Ctx(prop, tier, seed)
    rc = 0
    try:
        c["run"](x)
        if x.events == 0 and not x.rejects:
            raise Broken("nothing was validated")
        x.evidence(c["level"])
        seen = 0
        for prefix, rej in x.rejects:
            if seen < 3:
                p = x.replay_file(prefix, rej)
                print("VIOLATION property=%s replay=%s" % (prop, p))
            seen += 1
        if seen:
            print("%d recorded steps of the implementation are not steps of the specification" % seen)
            rc = 1
        else:
            print("%s held: %d recorded steps of the implementation validated, %d states" % (prop, x.events, x.states))
    except Broken as e:
        print("CHECK ERROR: %s" % e, file=sys.stderr)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 4
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", x.dir)
        else:
            x.close()
    sys.exit(rc)


main()
