#!/usr/bin/env python3
"""python3 check.py <ID>: run the check of one property (see DESIGN.md)."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    import vp
    mod = importlib.import_module(pid.lower())
    chk = vp.Check(pid)
    try:
        mod.run(chk)
    except vp.CheckError as e:
        print("CHECK ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return chk.finish()


if __name__ == "__main__":
    sys.exit(main())
