#!/usr/bin/env python3-vt
"""Which checks catch which planted bugs: python3-vt tools/catch.py [-a] [-j N] [ID...]
Applies each patch to a scratch copy of /repo and runs the property's check on it (-a: every check); records tools/caught.json."""
import concurrent.futures, glob, json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
allc = "-a" in args
par = 2
if "-j" in args:
    k = args.index("-j")
    par = int(args[k + 1])
    del args[k:k + 2]
only = [a for a in args if not a.startswith("-")]
man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
have = [c["property"] for c in man["checks"]]
REC = os.path.join(HERE, "tools", "caught.json")


def one(d):
    i = os.path.basename(d)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    work = "/tmp/catch-work/" + i
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree("/repo", work, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".venv"))
    subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], check=True, cwd=work)
    res, hits, line = [], [], ""
    try:
        for p in have if allc else [prop]:
            t = time.time()
            r = subprocess.run(["python3-vt", "check.py", p, "--jobs", str(max(1, 8 // par))], cwd=HERE, capture_output=True, text=True, env=dict(os.environ, SANDFS_REPO=work))
            hit = r.returncode == 1 and f"VIOLATION property={p}" in r.stdout
            if hit:
                hits.append(p)
                line = line or str([x for x in r.stdout.splitlines() if x.startswith("  case")][:1])
            if hit or not allc or r.returncode not in (0, 1):
                res.append(f"{p}:{'caught' if hit else 'MISSED' if r.returncode == 0 else 'rc%d' % r.returncode}({time.time() - t:.0f}s)")
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return i, prop, res, hits, line


dirs = [d for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))) if not only or os.path.basename(d) in only]
rec = json.load(open(REC)) if os.path.exists(REC) else {}
with concurrent.futures.ThreadPoolExecutor(par) as ex:
    for i, prop, res, hits, line in ex.map(one, dirs):
        print(i, prop, " ".join(res), line, flush=True)
        rec[i] = ", ".join(sorted(set(hits) | set(x for x in rec.get(i, "").split(", ") if x and x.startswith("C") and not allc and x != prop))) or "missed"
        json.dump(rec, open(REC, "w"), indent=1, sort_keys=True)
