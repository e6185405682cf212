#!/usr/bin/env python3
"""check.py PROPERTY [thorough]: exit 0 held, 1 violated (VIOLATION line), 2 no answer."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import core, props  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = "thorough" if "thorough" in sys.argv[2:] or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    rep = core.Report(prop, tier)
    work = core.fresh_dir(prop)
    try:
        props.CHECKS[prop](rep, work, tier)
        sys.exit(rep.finish())
    except core.ToolError as e:
        print("TOOL ERROR:", e)
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)


main()
