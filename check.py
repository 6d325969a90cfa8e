#!/usr/bin/env python3
"""check.py <property id>: see DESIGN.md.  Exit 0 held, 1 violated, 2 machinery failure."""
import sys, os, traceback, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common
import signal
signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))   # so that children are ended too
def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2: common.THOROUGH = sys.argv[2] == "thorough"; common.TIER = sys.argv[2]
    for mod in ("dec", "sim", "res", "spf", "par", "ship"):
        if not os.path.exists(os.path.join(common.VERIF, "lib", mod + ".py")): continue
        m = importlib.import_module(mod)
        if pid in m.CHECKS:
            chk = common.Check(pid)
            try:
                m.CHECKS[pid](chk)
                return chk.finish()
            except common.Infra as e:
                print("ERROR: %s" % e); return 2
    print("no check for " + pid); return 2
if __name__ == "__main__":
    try: rc = main()
    except Exception: traceback.print_exc(); rc = 2
    sys.stdout.flush(); sys.exit(rc)
