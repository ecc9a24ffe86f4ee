#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on the current tree of /repo.
exit 0 held, 1 violated, 2 the analysis could not be carried out."""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from fw.spec import Ctx, Broken
def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Ctx(pid, tier)
    try:
        m = importlib.import_module(f"props.{pid.lower()}")
        m.run(c)
        return c.finish(m.LEVEL, m.EXPLANATION, getattr(m, "ASSUMPTIONS", ()))
    except Broken as e:
        print(f"{pid}: ANALYSIS BROKEN: {e}")
        if c.viol:
            try: return 1 if c.finish("other", "partial run: " + str(e)[:200]) == 1 else 2
            except Broken: pass
        return 2
    except Exception:
        traceback.print_exc()
        return 2
if __name__ == "__main__": sys.exit(main())
