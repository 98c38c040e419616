#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property; exit 0 held, 1 violated, 2 the check itself failed."""
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import common, families, scenario, session


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    if prop == "setup":
        # nothing is kept from the set-up: every check builds the library from /repo's working tree
        for tool in ("cmake", "ninja", "java"):
            if not common.shutil.which(tool):
                raise common.Broken(tool + " is missing")
        return 0
    if prop in session.WANT:
        return session.check(prop, tier, seed, t0)
    if prop in families.FAMILIES:
        return scenario.check(prop, tier, seed, t0)
    print("unknown property", prop)
    return 2


if __name__ == "__main__":
    try:
        rc = main()
    except common.Broken as e:
        print("BROKEN:", e)
        rc = 2
    sys.exit(rc)
