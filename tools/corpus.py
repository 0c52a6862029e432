#!/usr/bin/env python3-vt
"""Survey helper, not a check: python3-vt tools/corpus.py make DIR [Cxx...]   models of (up to 250) explored paths of every case
                              python3-vt tools/corpus.py screen DIR [Cxx...]  runs them on the real code of $SANDFS_REPO until one fails
Used by tools/mutants.py to find quickly which small changes the checks would notice; survivors are then given to the checks themselves."""
import gzip, json, multiprocessing as mp, os, random, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from symx import core, runner
from symx.loader import Loader
from symx.session import AssumeFailed, CheckFailed, PlainSession


def make_case(args):
    prop, case, known = args
    got = []
    orig = core.Engine._witness

    def witness(self):
        orig(self)
        n = self.paths
        if n < 250 or n % (n // 100) == 0:
            try:
                got.append(self.concretise_inputs(self.ensure_model()))
            except Exception:
                pass
    core.Engine._witness = witness
    try:
        runner.run_case((prop, case, "quick", 300.0, known, time.monotonic() + 300))
    finally:
        core.Engine._witness = orig
    if len(got) > 250:
        got = random.Random(1).sample(got, 250)
    return {"prop": prop, "case": case, "inputs": got}


def screen_case(rec):
    ld = Loader(False)
    try:
        m = runner.harness_module(ld, rec["prop"])
    except Exception as exc:
        return rec["prop"], rec["case"]["name"], f"import: {exc!r}"
    for inputs in rec["inputs"]:
        try:
            ld.world.reset()
            runner.perform(ld, m, PlainSession(ld, inputs, "quick"), rec["case"]["params"])
        except AssumeFailed:
            continue
        except CheckFailed as exc:
            v = str(exc)
        except BaseException as exc:
            v = repr(exc)
        else:
            continue
        verdict, msg, _ = runner.replay(rec["prop"], rec["case"], inputs, "quick")
        if verdict == "violated":
            return rec["prop"], rec["case"]["name"], msg
    return None


def main():
    what, d, only = sys.argv[1], sys.argv[2], sys.argv[3:]
    man = [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
    jobs = int(os.environ.get("JOBS", "8"))
    if what == "make":
        os.makedirs(d, exist_ok=True)
        for p in only or man:
            m = runner.harness_module(Loader(False), p)
            ld = Loader(False)
            work = [(p, c, tuple(runner.load_known(p))) for c in runner.all_cases(ld, p, m, "quick")]
            with mp.get_context("fork").Pool(jobs) as pool, gzip.open(os.path.join(d, p + ".gz"), "wt") as out:
                n = 0
                for r in pool.imap_unordered(make_case, work, chunksize=1):
                    n += len(r["inputs"])
                    out.write(json.dumps(r) + "\n")
            print(p, len(work), "cases", n, "inputs", flush=True)
        return 0
    t0 = time.time()
    recs = []
    for p in only or man:
        with gzip.open(os.path.join(d, p + ".gz"), "rt") as fh:
            recs += [json.loads(l) for l in fh]
    random.Random(2).shuffle(recs)
    recs.sort(key=lambda r: len(r["inputs"]) > 60)
    with mp.get_context("fork").Pool(jobs, maxtasksperchild=200) as pool:
        for r in pool.imap_unordered(screen_case, recs, chunksize=1):
            if r is not None:
                print("FOUND", *r, "(%.0f s)" % (time.time() - t0))
                pool.terminate()
                return 1
    print("NOT FOUND (%.0f s)" % (time.time() - t0))
    return 0


sys.exit(main())
