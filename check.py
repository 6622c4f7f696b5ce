#!/usr/bin/env python3
"""check.py C01 .. C16: decide one property for the code in /repo."""
import os
import shutil
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "driver"))
import builders  # noqa: E402
import core  # noqa: E402
import props  # noqa: E402


def main():
    prop = sys.argv[1]
    if prop == "setup":
        err = core.build(("gvh", "gvx", "fakedot", "attrs"))
        if not err:
            # the dependencies of the programs made of builder uses
            folder = os.path.join(core.VERIF, "work", "setup-%d" % os.getpid())
            err = builders.program([], folder, [])
            shutil.rmtree(folder, ignore_errors=True)
        if err:
            print(err[-3000:])
        return 1 if err else 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    level, fn = props.CHECKS[prop]
    run = core.Run(prop, level, tier, seed)
    try:
        fn(run)
    except core.ToolError as e:
        print("CHECK ERROR: %s" % e)
        if not run.violations:
            return 2
    except Exception:
        traceback.print_exc()
        if not run.violations:
            return 2
    return run.finish()


sys.exit(main())
