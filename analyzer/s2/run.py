#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough]: decide one property for the current tree"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from ctx import Ctx, Missing


def main():
    pid = sys.argv[1]
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    ctx = Ctx(pid, tier)
    import importlib
    for m in ("rules_decode", "rules_version", "rules_state", "rules_export", "rules_more", "rules_serde", "rules_misc"):
        try: mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m: raise
            continue
        if pid in mod.CHECKS:
            try:
                mod.CHECKS[pid](ctx)
                if m not in ("rules_more", "rules_misc", "rules_serde"):
                    import rules_more
                    rules_more.compare(ctx, pid)          # further functions the property depends on
            except Missing as e: ctx.bad("anchor", str(e), str(e))
            return ctx.finish()
    raise SystemExit("no check for " + pid)


if __name__ == "__main__":
    try: rc = main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); rc = 2
    sys.exit(rc)
