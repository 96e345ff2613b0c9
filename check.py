#!/usr/bin/env python3
"""Decide one property of cgwavefront_obj on /repo's working tree.

    check.py --property C04 [--tier quick|thorough]
    check.py --replay FILE

1. TLC explores the bounded families of texts of the specification (spec/*Model)
   and checks the specification's invariants on them.
2. Those texts, and many larger ones (lib/gen.py, lib/plan.py), are run on the
   library, built from /repo in its dev and its release profile.
3. TLC validates every recorded answer against the specification (spec/*Trace).
   Each disagreement has an aspect; lib/owners.py says which properties it breaks.

Exit 0: held on everything explored.  Exit 1: VIOLATION property=... replay=...
Exit 2: the check could not do its work.
"""
import argparse, json, os, sys, time, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core, session                                              # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    try:
        if a.replay:
            return session.replay(a.replay)
        return session.check(a.property, a.tier, a.seed, a.verbose)
    except core.ToolError as e:
        print("CHECK-ERROR %s: %s" % (a.property, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
