#!/usr/bin/env python3
"""python3 check.py C01 [--replay FILE]   (environment: VERIF_SEED, VERIF_TIER)"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    import checks
    prop = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return checks.replay(prop, sys.argv[3])
    return checks.CHECKS[prop]()


if __name__ == "__main__":
    sys.exit(main())
