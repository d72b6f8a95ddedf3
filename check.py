#!/usr/bin/env python3
"""check.py C01 : decides one property on the code in /repo (see DESIGN.md)."""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks')]
sys.dont_write_bytecode = True
import vlib


def main():
    pid = sys.argv[1]
    try:
        mod = importlib.import_module(pid.lower())
        rc = vlib.run_check(pid, mod.run)
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


main()
