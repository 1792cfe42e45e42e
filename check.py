#!/usr/bin/env python3
"""check.py <property id>   (VERIF_TIER=quick|thorough, VERIF_SEED=n)
   check.py --replay <file> re-runs a recorded violation's scenario on the current tree"""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vt import core


def main():
    if sys.argv[1] == "--build":
        core.build()
        return 0
    if sys.argv[1] == "--replay":
        core.build()
        r = json.load(open(sys.argv[2]))
        c = core.Check(r["property"])
        try:
            ev = core.Runner(c.work).run([dict(r["scenario"], id=0)])
            for e in ev[0]:
                print(json.dumps(e))
        finally:
            c.close()
        return 0
    pid = sys.argv[1]
    mod = importlib.import_module("vt." + pid.lower())
    c = core.Check(pid)
    try:
        mod.start(c) if hasattr(mod, "start") else None
        core.build()
        mod.run(c)
        return c.finish()
    except core.ToolError as e:
        print("TOOL ERROR:", e, flush=True)
        if c.viol:
            for p, _ in c.viol[:5]:
                print(f"VIOLATION property={pid} replay={p}", flush=True)
            return 1
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        c.close()


if __name__ == "__main__":
    sys.exit(main())
