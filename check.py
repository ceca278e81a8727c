#!/opt/venv/bin/python
"""check.py CXX [quick|thorough] [--replay FILE]"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent"      # always from source: no stale byte code of a changed tree
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    for stream in (sys.stdout, sys.stderr):
        stream.reconfigure(errors="backslashreplace")
    from vf import runner
    try:
        code = runner.main(a.property.upper(), a.tier, seed, a.replay)
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.exit(code)
