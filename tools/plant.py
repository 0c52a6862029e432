#!/usr/bin/env python3-vt
"""Author the planted bugs: python3-vt tools/plant.py [ID...]

Each bug of tools/bugs.py is applied to a scratch copy of /repo; it is kept in
seeded/ only when the repository's tests still pass with it, its demo passes
without it and fails with it."""
import importlib
import json
import os
import re
import shutil
import subprocess
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
bugs = importlib.import_module("tools.bugs").BUGS
PRE = '''import os, sys
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
from sandfs import *
import sandfs
'''
SH = '''#!/bin/bash
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")


def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, env=ENV)


def main():
    only = set(sys.argv[1:])
    for b in bugs:
        if only and b["id"] not in only:
            continue
        work = "/tmp/plant-work"
        shutil.rmtree(work, ignore_errors=True)
        shutil.copytree("/repo", work, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".venv"))
        err = None
        for f, old, new in b["edits"]:
            p = os.path.join(work, f)
            s = open(p).read()
            if s.count(old) != b.get("count", 1) and not b.get("first"):
                err = f"old text occurs {s.count(old)} times in {f}"
                break
            open(p, "w").write(s.replace(old, new, 1 if b.get("first") else -1))
        if err:
            print(b["id"], "SKIP", err)
            continue
        t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider 2>&1 | tail -3", work)
        tests = "failed" not in t.stdout and "error" not in t.stdout and "passed" in t.stdout
        d = os.path.join(HERE, "seeded", b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "demo.py"), "w").write(PRE + b["demo"].strip() + "\n")
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        bad = sh([os.path.join(d, "demo.sh")], work)
        good = sh([os.path.join(d, "demo.sh")], "/repo")
        diff = sh("git diff", work).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        # lines removed must come from the original repository
        mine = []
        base = sh("git show $(git rev-list --max-parents=0 HEAD | tail -1):%s" % b["edits"][0][0], "/repo").stdout
        for ln in diff.splitlines():
            if re.match(r"^-(?!--)", ln) and ln[1:].strip() and ln[1:] not in base.splitlines():
                mine.append(ln)
        ok = tests and bad.returncode != 0 and good.returncode == 0 and not mine
        print(b["id"], b["property"], "KEPT" if ok else "DROPPED", "" if ok else
              f"tests={tests} {t.stdout[-300:] if not tests else ''} bad={bad.returncode} good={good.returncode} {good.stderr[-600:]} {mine}")
        if not ok:
            shutil.rmtree(d)
        shutil.rmtree(work, ignore_errors=True)


main()
