#!/usr/bin/env python3
"""check.py ID [ID...]: run the checks of the given properties against /repo's working tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa import facts


def main():
    rc = 0
    for pid in sys.argv[1:]:
        try:
            m = importlib.import_module("sa.checks." + pid.lower())
            r = (getattr(m, "run_check", None) or m.run)()
        except facts.AnalysisBroken as e:
            print("analysis broken: %s" % e, file=sys.stderr)
            r = 3
        except Exception:
            traceback.print_exc()
            r = 4
        rc = max(rc, r)
    return rc


if __name__ == "__main__":
    import threading
    threading.stack_size(512 << 20)
    res = []
    t = threading.Thread(target=lambda: res.append(main()))
    t.start()
    t.join()
    sys.exit(res[0] if res else 5)
