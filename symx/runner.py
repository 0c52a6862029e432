"""Run the harness of one property symbolically over all its cases, replay
every counterexample on the unmodified code, write evidence."""

from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import sys
import time
import traceback

from . import core
from .core import Divergence, Engine, PathAbort, Unsupported, Violation
from .loader import HERE, Loader
from .session import AssumeFailed, CheckFailed, KnownHit, PlainSession, SymSession

TOTAL = {"quick": 420.0, "thorough": 780.0}
OUT = os.path.join(HERE, "out")


def harness_module(loader, prop):
    return loader.load("props." + prop.lower())


def all_cases(loader, prop, m, tier):
    """The property's own cases and its larger instances."""
    large = loader.load("props.large")
    return [dict(name=n, params=p) for n, p in list(m.cases(tier)) + large.cases(prop, tier)]


def perform(loader, m, S, params):
    if "_large" in params:
        loader.load("props.large").run(S, params["_large"])
    else:
        m.run(S, **params)


def replay(prop, case, inputs, tier):
    """-> (verdict, message): 'violated', 'held', 'skipped'"""
    loader = Loader(False)
    try:
        m = harness_module(loader, prop)
        S = PlainSession(loader, inputs, tier)
        loader.world.reset()
        perform(loader, m, S, case["params"])
    except CheckFailed as exc:
        return "violated", str(exc), S
    except AssumeFailed:
        return "skipped", "assumption not met", S
    except Unsupported as exc:
        return "skipped", f"not modelled: {exc}", None
    except RecursionError:
        return "violated", "unbounded recursion", None
    except Exception as exc:
        tb = traceback.extract_tb(exc.__traceback__)
        if os.path.dirname(tb[-1].filename) == os.path.dirname(__file__) and isinstance(exc, (AttributeError, NameError, NotImplementedError)):
            return "skipped", f"not modelled: {exc}", None
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:])
        return "violated", f"unexpected {type(exc).__name__}: {exc} [{where}]", None
    return "held", "", S


def run_case(args):
    prop, case, tier, budget, known, deadline = args
    t0 = time.monotonic()
    budget = max(1.0, min(budget, deadline - t0))
    sys.setrecursionlimit(6000)
    res = {"case": case["name"]}
    fresh = False
    reloads = 0
    while True:
        eng = Engine(max_seconds=budget, max_paths=case.get("max_paths", 400000))
        state = {"loader": None}

        def once():
            if state["loader"] is None or fresh:
                core.ENGINE = None
                try:
                    state["loader"] = Loader(True)
                    harness_module(state["loader"], prop)
                finally:
                    core.ENGINE = eng
            ld = state["loader"]
            ld.world.reset()
            S = SymSession(ld, tier, known)
            perform(ld, harness_module(ld, prop), S, case["params"])
        try:
            eng.explore(once)
            break
        except Divergence as exc:
            if fresh:
                eng.degraded.append({"inputs": None, "error": f"divergence: {exc}"[:300], "exc_type": "Divergence", "traceback": ""})
                eng.exhausted = False
                break
            fresh = True
            reloads = 1
    res.update(paths=eng.paths, aborted=eng.aborted, queries=eng.queries, solver_s=eng.solver_s,
               decisions=eng.decisions, obligations=eng.obligations_discharged, trivial=eng.trivial_obligations,
               unknowns=eng.unknowns, exhausted=eng.exhausted, functions=sorted(eng.functions),
               covers=dict(eng.covers), reloads=reloads)
    # replay counterexamples on the real code
    viol, spurious = [], []
    for v in eng.violations:
        verdict, msg, _ = replay(prop, case, v["inputs"], tier)
        if verdict == "violated":
            viol.append({"message": v["message"], "real": msg, "inputs": v["inputs"]})
        else:
            spurious.append({"message": v["message"], "replay": f"{verdict} {msg}", "inputs": v["inputs"]})
    degraded = []
    for d in eng.degraded:
        if d["inputs"] is not None and len(viol) < 5:
            verdict, msg, _ = replay(prop, case, d["inputs"], tier)
            if verdict == "violated":
                viol.append({"message": f"unexpected failure: {d['error']}", "real": msg, "inputs": d["inputs"]})
                continue
        if len(degraded) < 5:
            degraded.append(d)
    # validate a sample of symbolic paths against the real code
    validated = 0
    mism = []
    wit = eng.path_witnesses[-40:] if len(eng.path_witnesses) > 40 else eng.path_witnesses
    for w in wit:
        verdict, msg, S = replay(prop, case, w["inputs"], tier)
        if verdict == "violated":
            viol.append({"message": "path judged safe symbolically fails on the real code", "real": msg, "inputs": w["inputs"]})
        elif verdict == "held" and S is not None and sorted(S.covers) == w["covers"]:
            validated += 1
        else:
            mism.append({"inputs": w["inputs"], "replay": f"{verdict} {msg}", "covers": w["covers"],
                         "real": sorted(S.covers) if S else None})
    res.update(violations=viol, spurious=spurious, degraded=degraded, n_degraded=len(eng.degraded) - 0,
               validated=validated, mismatches=mism[:5], n_mismatch=len(mism),
               samples=[w["inputs"] for w in wit[:2]], known_hits={})
    for fid, hits in eng.known_hits.items():
        for h in hits:
            verdict, msg, _ = replay(prop, case, h, tier)
            if verdict == "violated":
                res["known_hits"][fid] = msg
                break
    res["wall_s"] = time.monotonic() - t0
    return res


def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as fh:
        data = json.load(fh)
    return {e["id"]: e for e in data.get("findings", []) if e["property"] == prop}


def run_property(prop, tier, jobs=8, only=None, verbose=False):
    t0 = time.monotonic()
    mod_loader = Loader(False)
    m = harness_module(mod_loader, prop)
    cases = all_cases(mod_loader, prop, m, tier)
    if only:
        cases = [c for c in cases if only in c["name"]]
    known = load_known(prop)
    budget = getattr(m, "BUDGET", {}).get(tier, 90.0 if tier == "quick" else 700.0)
    deadline = t0 + (TOTAL[tier] if tier in TOTAL else 600.0)
    work = [(prop, c, tier, budget, tuple(known), deadline) for c in cases]
    results = []
    if jobs == 1:
        for w in work:
            results.append(run_case(w))
            if verbose:
                _show(results[-1])
    else:
        with mp.get_context("fork").Pool(jobs) as pool:
            it = pool.imap_unordered(run_case, work, chunksize=1)
            for r in it:
                results.append(r)
                if verbose:
                    _show(r)
                if r["violations"] and not verbose:
                    pool.terminate()
                    break
    results.sort(key=lambda r: r["case"])
    wall = time.monotonic() - t0
    violations = [(r["case"], v) for r in results for v in r["violations"]]
    known_hits = {}
    for r in results:
        known_hits.update(r["known_hits"])
    covers = {}
    for r in results:
        for c, n in r["covers"].items():
            covers[c] = covers.get(c, 0) + n
    want = set(getattr(m, "COVERS", ()))
    missing = sorted(want - set(covers)) if not only else []
    complete = len(results) == len(cases) and all(r["exhausted"] for r in results)
    out_v = []
    os.makedirs(OUT, exist_ok=True)
    rc = 0
    for case, v in violations[:5]:
        rec = {"property": prop, "case": case, "tier": tier, "params": next(c["params"] for c in cases if c["name"] == case),
               "inputs": v["inputs"], "message": v["message"], "real": v["real"]}
        h = hashlib.sha1(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(OUT, f"{prop}-{h}.json")
        with open(path, "w") as fh:
            json.dump(rec, fh, indent=1, sort_keys=True)
        out_v.append({"replay": path, "case": case, "message": v["real"]})
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  case {case}: {v['real']}")
        print(f"  inputs {json.dumps(v['inputs'], sort_keys=True)[:600]}")
        rc = 1
    for fid, msg in sorted(known_hits.items()):
        print(f"KNOWN-FINDING: property={prop} {fid} {known[fid]['what']}")
    funcs = sorted({f for r in results for f in r["functions"]})
    evidence = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": sum(r["paths"] for r in results),
            "transitions": sum(r["decisions"] for r in results),
            "traces_validated_against_impl": sum(r["validated"] for r in results),
            "samples": [s for r in results for s in r["samples"]][:6],
            "infeasible_or_out_of_scope_paths": sum(r["aborted"] for r in results),
            "solver_queries": sum(r["queries"] for r in results),
            "solver_time_s": round(sum(r["solver_s"] for r in results), 3),
            "obligations_discharged_by_solver": sum(r["obligations"] for r in results),
            "obligations_closed_by_path_condition": sum(r["trivial"] for r in results),
            "solver_unknown": sum(r["unknowns"] for r in results),
            "cases": [{"case": r["case"], "paths": r["paths"], "exhausted": r["exhausted"], "wall_s": round(r["wall_s"], 2)} for r in results],
            "exhaustive_within_bounds": complete and not any(r["n_degraded"] for r in results),
            "degraded_paths": sum(r["n_degraded"] for r in results),
            "degraded_examples": [d for r in results for d in r["degraded"]][:3],
            "spurious_counterexamples": [s for r in results for s in r["spurious"]][:3],
            "witness_mismatches": sum(r["n_mismatch"] for r in results),
            "functions_encoded": [f for f in funcs if f.startswith("sandfs")],
            "stdlib_functions_encoded": [f for f in funcs if not f.startswith("sandfs") and not f.startswith("props")],
            "bounds": getattr(m, "BOUNDS", "") + (mod_loader.load("props.large").BOUNDS if any("_large" in c["params"] for c in cases) else ""),
            "covers": covers, "covers_missing": missing, "violation_details": out_v,
            "what_is_counted": "states: symbolic execution paths (each a set of inputs described by its path condition); "
                               "transitions: solver-decided branch points along them",
        },
        "assumptions": list(getattr(m, "ASSUMPTIONS", [])) + [
            "CPython semantics of the un-instrumented C builtins on concrete values",
            "the str/dict/set/regex models of symx agree with CPython (validated by replaying path models)"],
        "violations": len(out_v),
        "wall_s": round(wall, 3),
    }
    if not only:
        d = os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, f"{prop}.json"), "w") as fh:
            json.dump(evidence, fh, indent=1, sort_keys=True, default=str)
    print(f"{prop} {tier}: {evidence['coverage']['states']} paths, {evidence['coverage']['solver_queries']} queries, "
          f"{evidence['coverage']['obligations_discharged_by_solver']} obligations by solver, "
          f"validated {evidence['coverage']['traces_validated_against_impl']}, "
          f"degraded {evidence['coverage']['degraded_paths']}, spurious {sum(len(r['spurious']) for r in results)}, "
          f"mismatch {evidence['coverage']['witness_mismatches']}, exhaustive={evidence['coverage']['exhaustive_within_bounds']}, "
          f"{wall:.1f}s")
    if missing and not rc:
        print(f"warning: situations not reached: {missing}")
    return rc, results


def _show(r):
    print(f"  {r['case']}: paths={r['paths']} aborted={r['aborted']} q={r['queries']} solver={r['solver_s']:.1f}s wall={r['wall_s']:.1f}s "
          f"exh={r['exhausted']} viol={len(r['violations'])} spur={len(r['spurious'])} degr={r['n_degraded']} mism={r['n_mismatch']} covers={sorted(r['covers'])}")
    for v in r["violations"][:3]:
        print("     VIOL", v["real"], v["message"], v["inputs"])
    for v in r["spurious"][:2]:
        print("     SPUR", v)
    for v in r["degraded"][:2]:
        print("     DEGR", v["error"], v["inputs"], "\n", v["traceback"])
    for v in r["mismatches"][:2]:
        print("     MISM", v)
    sys.stdout.flush()
