#!/usr/bin/env python3
"""check.py <property> [--thorough] [--replay FILE]: decides one property.
Exit 0: held on everything explored; 1: VIOLATION lines say where it did not;
2: the check could not do its work."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core, report, props

def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    if "--quick" in sys.argv: tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        chk = report.Check(pid, tier if tier in ("quick", "thorough") else "quick", seed, "model_checking", props.ASSUME)
        props.PROPS[pid](chk)
        return chk.finish()
    except core.CheckError as e:
        print("CHECK ERROR: %s" % e, file=sys.stderr)
        return 2

sys.exit(main())
