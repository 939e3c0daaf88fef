#!/usr/bin/env python3
"""Entry point: check.py <property id>. Exit 0 held, 1 violated, 3 harness error."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from engine import common


def main():
    prop = sys.argv[1]
    mod = importlib.import_module("checks." + prop.lower())
    c = common.Check(prop)
    try:
        common.set_limits()
        c.binary = common.build("dbg")
        mod.run(c)
        rc = c.finish()
    except Exception:
        traceback.print_exc()
        if c.viol:
            return c.finish()
        import shutil
        shutil.rmtree(c.tmp, ignore_errors=True)
        return 3
    return rc


if __name__ == "__main__":
    sys.exit(main())
