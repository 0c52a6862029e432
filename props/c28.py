BOUNDS = ("trees of 8 nodes with two arbitrary names of 1-2 characters over a, b, ., -, \\, space and a non-ASCII letter, texts of up to 2 (thorough: 3) arbitrary Unicode characters (line endings included), static, provided, stored and "
          "lazily provided files, any policy; exported from 4 sources to new, nested, existing, non-empty and relative targets, with every include filter (by node, symbolic); materialised and left normally or by an exception")
ASSUMPTIONS = ["host filesystem as modelled by symx/fakefs.py; names whose host spelling would not be a single component do not occur", "lone surrogates cannot be encoded and are outside"]
BUDGET = {"quick": 200, "thorough": 700}
COVERS = ("exported", "filtered", "materialised")

SOURCES = [None, "/", "/d", "/d/e"]
TARGETS = ["/out", "/out/new/deep", "/full", "rel/x"]


def cases(tier):
    out = [(f"export {s} {t}", {"kind": "export", "source": s, "target": t}) for s in SOURCES for t in TARGETS]
    out += [(f"materialise {s} {how}", {"kind": how, "source": s, "target": ""}) for s in SOURCES for how in ("normal", "exception")]
    out += [(f"include {s}", {"kind": "include", "source": s, "target": "/out"}) for s in ("/", "/d")]
    out += [(f"names {i}", {"kind": "names", "source": "/d", "target": "/out"}) for i in (1,)]
    out += [("errors", {"kind": "errors", "source": "", "target": ""})]
    return out


def build(S, names=("a", "b")):
    s = S.sandfs
    vfs = s.VirtualFileSystem()
    t = S.str("t", 0, 3 if S.thorough else 2)
    u = S.str("u", 1, 1)
    p = S.str("p", 1, 1)
    files = {"/d/" + names[0]: t, "/d/e/" + names[1]: "\r\n" + u, "/top": "top\rx\n", "/d/prov": p, "/d/e/un": "secret", "/m/s": "stored", "/lazy/l": p}
    for f in sorted(files):
        if f not in ("/d/prov", "/m/s", "/lazy/l"):
            vfs.write_file(f, files[f])
    vfs.mkdir("/d/empty")
    vfs.mkdir("/d/" + "x/y", parents=True)
    vfs.mount_file("/d/prov", lambda ctx: p)
    vfs.mount_storage("/m", S.mod("adapters").MemoryStorageAdapter({"s": "stored"}))
    vfs.mount_directory("/lazy", lambda ctx: {"l": s.ProvidedNode.file(content=p), "ld": s.ProvidedNode.directory(directory_provider=lambda c: {})})
    vfs.set_policy("/d/e/un", s.NodePolicy(readable=S.bool("r"), writable=False))
    dirs = ["/d", "/d/e", "/d/empty", "/d/x", "/d/x/y", "/m", "/lazy", "/lazy/ld"]
    return vfs, files, dirs


def expected(files, dirs, source, keep=None):
    pre = "" if source in (None, "/") else source
    rows = []
    for f in files:
        if f.startswith(pre + "/") and (keep is None or keep(f)):
            rows.append((f[len(pre) + 1:], "f", files[f]))
    for d in dirs:
        if d.startswith(pre + "/") and (keep is None or keep(d)):
            rows.append((d[len(pre) + 1:], "d", None))
    return rows


def rows_of(w, target):
    return [(r, k, d if k != "f" else d.decode("utf-8")) for r, k, d in w.tree(target)]


def compare(S, got, want, what):
    S.check(len(got) == len(want), what)
    for g in got:
        S.check(S.any([S.eq(g, x) for x in want]), what)


def run(S, kind, source, target):
    w = S.fs
    w.put("/etc/passwd", "root")
    w.mkdir("/full")
    w.put("/full/keep", "kept")
    w.cwd = "/home"
    names = ("a", "b")
    if kind == "names":
        names = tuple(S.str("name%d" % i, 1, 2, alphabet="ab.-\\ \u00e9") for i in range(2))
        for n in names:
            S.assume(n != "." and n != ".." and n != "e" and n != "x")
    vfs, files, dirs = build(S, names)
    if target == "/full":
        # the target may hold files and directories of the same names already
        for r, k, d in expected(files, dirs, source):
            if k == "d" and "/" not in r and S.flag("had " + r):
                w.mkdir("/full/" + r)
                break
        for r, k, d in expected(files, dirs, source):
            if k == "f" and "/" not in r and S.flag("had " + r):
                w.put("/full/" + r, S.choice("old", ["", "an older, longer text\n", d]))
                if S.flag("newer"):
                    w.now += 10 ** 12
                    w.put("/full/" + r, "newer")
                break
    if kind == "errors":
        count = len(w.tree("/"))
        for bad in ("/top", "/missing"):
            ok, _ = S.attempt(vfs.export_to_path, S.pathlib.Path("/out"), source=bad)
            S.check(not ok, "only directories can be exported")
        S.check(len(w.tree("/")) == count, "and nothing is written")
        S.cover("exported")
        return
    tree_before = [(str(p), None if hasattr(n, "children") else n.read(vfs), n.version) for p, n in vfs.walk("/")]
    if source is None:
        vfs.cd("/")
    before = [(r, k, d) for r, k, d in w.tree("/")]
    if kind in ("normal", "exception"):
        try:
            with vfs.materialize(source) as root:
                where = str(root)
                got = rows_of(w, where)
                compare(S, got, expected(files, dirs, source), "the materialised directory holds exactly the tree")
                S.fs.put(where + "/extra", "left behind")
                if kind == "exception":
                    raise KeyError("stop")
        except KeyError:
            pass
        S.cover("materialised")
        after = w.tree("/")
        S.check(S.eq(sorted(r for r, k, d in after if r != "tmp"), sorted(r for r, k, d in before if r != "tmp")), "the materialised directory is removed afterwards")
    else:
        keep = None
        if kind == "include":
            keep, inc = chooser(S, files, dirs)
            r = vfs.export_to_path(S.pathlib.Path(target), source=source, include=inc)
            S.cover("filtered")
        else:
            r = vfs.export_to_path(S.pathlib.Path(target), source=source)
            S.cover("exported")
        full = target if target.startswith("/") else "/home/" + target
        got = [x for x in rows_of(w, full) if not (target == "/full" and x[0] == "keep")]
        compare(S, got, expected(files, dirs, source, keep), "the target holds exactly the exported tree, every text as it is")
        S.check(str(r) == target, "the target is returned")
        if target == "/full":
            S.check(w.text("/full/keep") == "kept", "other files in the target stay")
        rel = full[1:]
        for row, kindof, data in w.tree("/"):
            if row == rel or row.startswith(rel + "/") or rel.startswith(row + "/") or row == "tmp":
                continue
            S.check(S.any([S.eq((row, kindof, data), b) for b in before]), "nothing outside the target is written")
    S.check(S.eq([(str(p), None if hasattr(n, "children") else n.read(vfs), n.version) for p, n in vfs.walk("/")], tree_before), "exporting does not change the tree")


def chooser(S, files, dirs):
    out = set()
    for n in ("/d/a", "/d/e", "/d/e/b", "/d/empty", "/d/prov", "/lazy", "/d/x"):
        if S.flag("drop " + n):
            out.add(n)
            if len(out) == 2:
                break

    def keep(path):
        parts = path.split("/")
        return not any("/".join(parts[:i]) in out for i in range(2, len(parts) + 1))
    return keep, lambda node: str(node.path()) not in out
