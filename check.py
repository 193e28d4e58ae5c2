#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current tree (see DESIGN.md)."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python"
try:
    import z3                                                    # noqa
except ImportError:
    import shutil
    p = shutil.which("python3-vt") or VT
    os.execv(p, [p] + [os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.dont_write_bytecode = True

def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2: os.environ["VERIF_TIER"] = sys.argv[2]
    import core
    try:
        import numeric_checks
        if hasattr(numeric_checks, pid): return numeric_checks.run(pid)
        import cbmc_checks
        return cbmc_checks.run(pid)
    except core.CheckError as e:
        print("ERROR: %s" % e)
        return 2

sys.exit(main())
