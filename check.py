#!/usr/bin/env python3-vt
"""python3-vt check.py Cxx [--tier quick|thorough] | --replay FILE"""
import argparse
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from symx import runner  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument("--case", default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        with open(a.replay) as fh:
            rec = json.load(fh)
        verdict, msg, _ = runner.replay(rec["property"], {"name": rec["case"], "params": rec["params"]}, rec["inputs"], rec["tier"])
        print(verdict, msg)
        if verdict == "violated":
            print(f"VIOLATION property={rec['property']} replay={a.replay}")
            return 1
        return 0
    rc, _ = runner.run_property(a.property, a.tier, jobs=a.jobs, only=a.case, verbose=a.v)
    return rc


sys.exit(main())
