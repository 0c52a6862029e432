#!/usr/bin/env python3-vt
"""Regenerate properties.jsonl and MANIFEST.json from tools/table.py and the harnesses present."""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.table import NOT_APPLICABLE, P  # noqa: E402

OVER = {"input": "inputs", "history": "histories", "schedule": "schedules", "fault": "fault_sequences", "state": "configurations"}


def main():
    na = {p: r for p, r in NOT_APPLICABLE}
    checks = []
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            have = os.path.exists(os.path.join(HERE, "props", p["id"].lower() + ".py"))
            if not have and p["id"] not in na:
                continue
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": [OVER[o] for o in p["over"]], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": m, "where": p["files"][0]} for m in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
            if have:
                src = open(os.path.join(HERE, "props", p["id"].lower() + ".py")).read()
                checks.append({
                    "property": p["id"],
                    "quick_cmd": f"python3-vt check.py {p['id']} --tier quick",
                    "thorough_cmd": f"python3-vt check.py {p['id']} --tier thorough",
                    "technique": "bounded symbolic execution of the current Python source with Z3 deciding every branch and obligation; "
                                 "counterexamples replayed on the unmodified code",
                    "level": "model_checking",
                    "level_note": "Holds for every value within the bounds in the evidence file (BOUNDS in props/%s.py), nothing is claimed beyond them." % p["id"].lower(),
                })
                assert "BOUNDS" in src
    man = {"version": 1, "setup_cmd": "python3-vt -c 'import z3; print(z3.get_version_string())'", "checks": checks,
           "not_applicable": [{"property": p, "reason": r} for p, r in NOT_APPLICABLE]}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


main()
