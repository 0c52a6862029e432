"""Run the repository's own tests under the instrumentation with the engine
active (concrete values): the hooks must not change behaviour."""
import glob
import inspect
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from symx import core, loader as L  # noqa: E402

bad = ok = skipped = 0
orig = L.Loader.source_of


def source_of(self, name):
    if name.startswith("rtests."):
        return os.path.join(L.REPO, "tests", name.split(".")[1] + ".py"), False
    return orig(self, name)


L.Loader.source_of = source_of
for instrument in (True, False):
    for f in sorted(glob.glob(os.path.join(L.REPO, "tests", "test_*.py"))):
        mod = os.path.basename(f)[:-3]
        ld = L.Loader(instrument)
        try:
            m = ld.load("rtests." + mod)
        except Exception as e:
            print("LOAD", mod, e)
            traceback.print_exc()
            bad += 1
            continue
        for n, fn in sorted(vars(m).items()):
            if not n.startswith("test_") or not callable(fn):
                continue
            ld.world.reset()
            kw = {}
            params = list(inspect.signature(fn).parameters)
            unsupported = [p for p in params if p != "tmp_path"]
            if unsupported or hasattr(fn, "pytestmark"):
                skipped += 1
                continue
            if "tmp_path" in params:
                kw["tmp_path"] = ld.load("pathlib").Path("/tmp")
            eng = core.Engine()
            eng._values, eng._oblmsg = {}, {}
            if instrument:
                core.ENGINE = eng
            try:
                fn(**kw)
                ok += 1
            except core.Unsupported as e:
                skipped += 1
            except BaseException as e:
                bad += 1
                print("FAIL", instrument, mod, n, type(e).__name__, str(e)[:300])
                if "-v" in sys.argv:
                    traceback.print_exc()
            finally:
                core.ENGINE = None
print("ok", ok, "bad", bad, "skipped", skipped)
sys.exit(1 if bad else 0)
