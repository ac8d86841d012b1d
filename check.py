#!/usr/bin/env python3
"""check.py <property id> | replay <file> | setup

Decides one property of the simulator in /repo with the specification in
/verif/spec.  VERIF_TIER is quick or thorough, VERIF_SEED seeds every random
choice.  Exit 0: the property held on everything explored; exit 1 and a line
VIOLATION property=<id> replay=<path>: it didn't; anything else: no answer."""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True

import report  # noqa: E402


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        return report.replay(sys.argv[2])
    if len(sys.argv) != 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        return report.setup()
    return report.run_check(sys.argv[1])


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
