#!/usr/bin/env python3
"""check.py Cxx [quick|thorough]: decide one property for /repo's working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core
from checks import CHECKS


def main():
    pid = sys.argv[1]
    if pid == "build":
        core.build()
        return 0
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    chk = core.Check(pid)
    core.build()
    try:
        CHECKS[pid](chk)
    except core.Enough:
        pass
    return chk.finish()


if __name__ == "__main__":
    try:
        rc = main()
    except core.ToolError as e:
        print("check could not decide: %s" % e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
