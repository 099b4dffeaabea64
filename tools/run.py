#!/usr/bin/env python3
"""tools/run.py Cxx quick|thorough - one check.  Exit 0: held; 1: VIOLATION; 2: tool error."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf.common import Run, ToolError


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    from vf.checks import ALL
    run = Run(prop, tier)
    try:
        return ALL()[prop](run)
    except ToolError as e:
        print("TOOL ERROR: %s" % e, file=sys.stderr)
    except Exception:
        traceback.print_exc()
    # what had already been established stands
    if run.violations:
        return run.finish()
    return 2


if __name__ == "__main__":
    sys.exit(main())
