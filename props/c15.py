BOUNDS = ("one operation (read, write, delete, list), or two in a row, with path strings of up to 4 (thorough: 5) characters over '/', '.' and 5 names, plus 12 longer "
          "ones, on a directory holding files, subdirectories and symbolic links to files and directories inside and outside; the root "
          "given directly, through a link, or relative (also when the process changes its directory later); also through a mounted directory and with links created while mounted, and with files and directories exchanged for links between two operations")
ASSUMPTIONS = ["the host filesystem behaves like symx/fakefs.py (POSIX path and symbolic-link semantics); links are not exchanged in the middle of one call"]
BUDGET = {"quick": 200, "thorough": 700}
COVERS = ("inside", "refused", "listed")

LONG = ["../rx", "../rx/y", "/host/rx/y", "/etc/s", "../../etc/s", "d/../../rx/y", "o/../../etc/s", "d/i/../../../rx/y", "o/p/../q", "d/o/x", "d/./l", "i/new/deep"]


def cases(tier):
    n = 5 if tier == "thorough" else 4
    out = []
    for root in ("/host/r", "/host/alias", "r"):
        for op in ("read", "write", "delete"):
            out.append((f"{op} {root}", {"op": op, "root": root, "n": n if root == "/host/r" else 3}))
            out.append((f"{op} {root} long", {"op": op, "root": root, "n": 0}))
        out.append((f"list {root}", {"op": "list", "root": root, "n": 0}))
    for a in ("read", "write", "delete"):
        for b in ("read", "write", "delete", "list"):
            out.append((f"{a}-{b}", {"op": a + "-" + b, "root": "/host/r", "n": 0}))
    for a in ("none", "read", "write", "list"):
        for b in ("read", "write", "delete", "list"):
            out.append((f"chdir {a}-{b}", {"op": "chdir", "root": a, "n": b}))
    out.append(("mounted", {"op": "mounted", "root": "/host/r", "n": 0}))
    return out


def build(S):
    w = S.fs
    for d in ("/host", "/host/r", "/host/r/d", "/host/rx", "/out"):
        w.mkdir(d)
    w.put("/etc/s", "secret")
    w.put("/out/x", "outside x")
    w.put("/host/rx/y", "sibling")
    w.put("/host/r/f", "inside f")
    w.put("/host/r/d/f", "inside d/f")
    w.symlink("/etc/s", "/host/r/l")
    w.symlink("../../out", "/host/r/o")
    w.symlink("d/f", "/host/r/i")
    w.symlink("../f", "/host/r/d/i")
    w.symlink("/out", "/host/r/d/o")
    w.symlink("../../etc/s", "/host/r/d/l")
    w.symlink("/host/r", "/host/alias")
    w.cwd = "/host"


def outside(w):
    return sorted((r, k, d) for r, k, d in w.tree("/") if not (r == "host/r" or r.startswith("host/r/")))


def seen(S, w, start):
    for op, node in w.log[start:]:
        if op in ("stat", "scandir"):
            continue
        at = node.where()
        S.check(at == "/host/r" or at.startswith("/host/r/"), "no file or directory outside the root is opened, created or removed")


def inside_file(S, w, path):
    """The regular file inside the root that the path denotes on the host, if any."""
    cur = "/host/r"
    for part in path.split("/"):
        if part in ("", "."):
            continue
        if part == "..":
            cur = cur[:cur.rfind("/")] or "/"
            continue
        cur = cur.rstrip("/") + "/" + part
        try:
            cur = w.lookup(cur).where()
        except OSError:
            pass
    try:
        node = w.lookup(cur)
    except OSError:
        return None
    if node.kind != "f" or not node.where().startswith("/host/r/"):
        return None
    return node


def chdir(S, w, A, first, then):
    """The root given relatively keeps its place when the process goes elsewhere."""
    for d in ("/elsewhere", "/elsewhere/r", "/elsewhere/r/d"):
        w.mkdir(d)
    w.put("/elsewhere/r/f", "foreign")
    w.put("/elsewhere/r/d/f", "foreign")
    before = outside(w)
    ad = A.FileSystemAdapter(S.pathlib.Path(S.choice("root", ["r", "./r", "../host/r", "rx/../r"]) if first != "list" else "r"))
    if first == "read":
        S.attempt(ad.read, "f", also=(ValueError, OSError))
    elif first == "write":
        S.attempt(ad.write, "f", "one", version=0, also=(ValueError, OSError))
    elif first == "list":
        ad.list()
    w.cwd = S.choice("cwd", ["/elsewhere", "/host/r", "/host/rx", "/"])
    start = len(w.log)
    path = S.choice("path", ["f", "d/f", "new", "d/new", "../r/f", "/f"])
    if then == "list":
        ok, v = S.attempt(ad.list, also=(ValueError, OSError))
        S.check(not ok or all("foreign" not in e.content for e in v.values()), "nothing outside is listed")
        S.cover("listed")
    elif then == "read":
        ok, v = S.attempt(ad.read, path, also=(ValueError, OSError))
        S.check(not ok or "foreign" not in v.content, "nothing outside is read")
        S.cover("inside" if ok else "refused")
    elif then == "write":
        ok, v = S.attempt(ad.write, path, "new", version=S.choice("version", [0, 1]), also=(ValueError, OSError))
        S.cover("inside" if ok else "refused")
    else:
        ok, v = S.attempt(ad.delete, path, also=(ValueError, OSError))
        S.cover("inside" if ok else "refused")
    S.check(outside(w) == before, "nothing outside the root is created, changed or removed")
    seen(S, w, start)


def run(S, op, root, n):
    build(S)
    w = S.fs
    A = S.mod("adapters")
    if op == "chdir":
        return chdir(S, w, A, root, n)
    before = outside(w)
    ad = A.FileSystemAdapter(S.pathlib.Path(root))
    if op == "mounted":
        return mounted(S, w, ad, before)
    for k, o in enumerate(op.split("-")):
        if k:
            swap = S.choice("swap", [None, "/host/r/f", "/host/r/d", "/host/r/d/f", "/host/r/new"])
            if swap is not None:        # somebody exchanges a used file or directory for a link leading outside
                node = None
                try:
                    node = w.lookup(swap)
                except OSError:
                    pass
                if node is not None:
                    w.rmtree(swap) if node.kind == "d" else w.unlink(swap)
                w.symlink("/out" if swap == "/host/r/d" else "/out/x", swap)
        start = len(w.log)
        path = S.str("path%d" % k, 1, n, alphabet="/.dflo") if n else S.choice("path%d" % k, LONG + ["f", "l", "o/x", "o/new", "d", "i", "d/i", "d/o/new", "d/f", "d/x", "new"])
        target = inside_file(S, w, path) if o != "list" else None
        want = target.data.decode() if target is not None else None
        plain = not path.startswith("//")
        if o == "read":
            ok, v = S.attempt(ad.read, path, also=(ValueError, OSError))
            if ok:
                S.check(target is not None and v.content == want, "a read returns the text of a file inside the root")
            elif plain:
                S.check(target is None, "every file inside the root can be read")
        elif o == "write":
            ver = 0
            if target is not None and plain:
                ver = ad.read(path).version
            ok, v = S.attempt(ad.write, path, "new text", version=ver, also=(ValueError, OSError))
            if ok:
                node = inside_file(S, w, path)
                S.check(node is not None and node.data == b"new text", "a write stores the text in a file inside the root")
        elif o == "delete":
            ok, v = S.attempt(ad.delete, path, also=(ValueError, OSError))
            if ok and target is not None:
                S.check(inside_file(S, w, path) is None, "a deleted file is gone")
        else:
            ok, v = S.attempt(ad.list, also=(ValueError, OSError))
            S.check(ok, "the root can be listed")
            for key, e in v.items():
                node = inside_file(S, w, key)
                S.check(node is not None and not key.startswith("/") and ".." not in key.split("/"), "listed keys denote files inside the root")
                S.check(node is None or e.content == node.data.decode(), "with the text of that file")
            S.check("f" not in [r for r, kind, _ in w.tree("/host/r") if kind == "f"] or "f" in v, "and every file inside the root is listed")
            S.cover("listed")
        S.cover("inside" if ok and target is not None else "refused" if not ok else "other")
        seen(S, w, start)
        S.check(S.eq(outside(w), before), "nothing outside the root changes")


def mounted(S, w, ad, before):
    vfs = S.sandfs.VirtualFileSystem()
    start = len(w.log)
    vfs.mount_storage("/m", ad)
    for p, node in vfs.walk("/m"):
        if not hasattr(node, "children"):
            S.check(inside_file(S, w, str(p)[3:]) is not None, "only files inside the root appear in the mount")
            S.check("secret" not in node.read(vfs) and "outside" not in node.read(vfs), "and no text from elsewhere")
    if S.flag("late"):
        w.symlink("/out/x", "/host/r/late")
        w.symlink("/out", "/host/r/ldir")
    p = S.choice("p", ["/m/l", "/m/o/x", "/m/o/new", "/m/d/o/x", "/m/d/l", "/m/f", "/m/../../out/x", "/m/late", "/m/ldir/x", "/m/ldir/new", "/m/new/x"])
    op = S.choice("op", ["write", "append", "touch", "remove", "sync"])
    if op == "write":
        ok, _ = S.attempt(vfs.write_file, p, "new", also=(ValueError, OSError))
    elif op == "append":
        ok, _ = S.attempt(vfs.append_file, p, "new", also=(ValueError, OSError))
    elif op == "touch":
        ok, _ = S.attempt(vfs.touch, p, also=(ValueError, OSError))
    elif op == "remove":
        ok, _ = S.attempt(vfs.remove, p, recursive=True, also=(ValueError, OSError))
    else:
        ok, _ = S.attempt(vfs.sync_storage, "/m", also=(ValueError, OSError))
        for q, node in vfs.walk("/m"):
            if not hasattr(node, "children"):
                S.check(inside_file(S, w, str(q)[3:]) is not None, "only files inside the root appear in the mount")
    S.cover("inside" if ok else "refused")
    seen(S, w, start)
    S.check(S.eq(outside(w), before), "nothing outside the root changes")
