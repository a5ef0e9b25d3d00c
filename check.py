#!/usr/bin/env python3
"""check.py <property id>: decides one property for /repo's working tree."""
import importlib, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
MODULES = ["checks_run", "checks_pair", "checks_blocks", "checks_ldl", "checks_amd", "checks_session", "checks_api", "checks_py", "checks_mex"]
def find(p):
    for m in MODULES:
        mod = importlib.import_module("vt." + m)
        if hasattr(mod, p): return getattr(mod, p)
    raise SystemExit("no check for " + p)
if __name__ == "__main__":
    from vt import check
    sys.exit(check.main(sys.argv[1], find(sys.argv[1])))
