from props.lib import dump, same

BOUNDS = ("a provider-backed file whose provider returns a different arbitrary text (1 character) each time, is used in 3 of 18 ways in a row (reading, printing, searching, listing, appending, "
          "writing, moving, copying, snapshot, storage, failing in between); a provided directory with files, nested and lazily nested directories, symbolic texts, kinds, "
          "metadata and policies, reached first by any of 13 operations, loaded once, reloaded when mounted again; failures before success at every level")
ASSUMPTIONS = ["what a provider itself does to the filesystem is not specified"]
BUDGET = {"quick": 200, "thorough": 700}
COVERS = ("dynamic", "static", "loaded", "failed")

OPS = ["read", "cat", "head", "grep", "search", "ls", "find", "tree", "exists", "append", "append-sh", "write", "move", "copy", "fail", "glob", "touch", "meta"]
FIRST = ["ls", "read", "exists", "is_dir", "walk", "find", "tree", "grep", "cd", "write", "mkdir", "glob", "copy", "sh ls", "deep"]


def cases(tier):
    out = [(f"file {o}", {"kind": "file", "arg": o, "n": 2}) for o in OPS]
    out += [(f"dir {f}", {"kind": "dir", "arg": f, "n": 0}) for f in FIRST]
    out += [(f"retry {f}", {"kind": "retry", "arg": f, "n": 0}) for f in ("read", "ls", "exists", "write", "find", "walk")]
    out += [(k, {"kind": k, "arg": "", "n": 0}) for k in ("remount", "precedence", "mountover", "attributes")]
    return out


def run(S, kind, arg, n):
    if kind == "file":
        return dynamic(S, [arg] + [S.choice("op%d" % i, OPS) for i in range(n)])
    if kind == "dir":
        return directory(S, arg)
    if kind == "retry":
        return retry(S, arg)
    if kind == "remount":
        return remount(S)
    if kind == "precedence":
        return precedence(S)
    if kind == "attributes":
        return attributes(S)
    vfs = S.sandfs.VirtualFileSystem()
    vfs.write_file("/f", "old")
    t = S.str("t", 0, 1)
    vfs.mount_file("/f", lambda ctx: t, metadata={"k": 1})
    S.check(vfs.read_file("/f") == t and vfs.get_node("/f").metadata.get("k") == 1, "mounting over a file makes it dynamic")
    vfs.mount_file("/a/b/c", lambda ctx: t)
    S.check(vfs.read_file("/a/b/c") == t and vfs.is_dir("/a/b"), "missing parents are created")
    ok, _ = S.attempt(vfs.mount_file, "/a/b", lambda ctx: t)
    S.check(not ok and vfs.is_dir("/a/b"), "a directory is not replaced by a dynamic file")
    S.cover("dynamic")


def dynamic(S, ops):
    s = S.sandfs
    vfs = s.VirtualFileSystem()
    sh = s.SandboxShell(vfs)
    seen = []
    served = []
    broken = [False]

    def provider(ctx):
        seen.append((str(ctx.path), dict(ctx.metadata), ctx.vfs))
        if broken[0]:
            raise ValueError("no data")
        t = S.str("t%d" % len(seen), 1, 1, alphabet="xyz")
        served.append(t)
        return t
    vfs.write_file("/d/other", "x")
    vfs.mount_file("/d/p", provider, metadata={"k": "v"})
    S.check(not seen, "mounting does not call the provider")
    path = "/d/p"
    static = None
    for i, op in enumerate(ops):
        before = len(seen)
        last = None
        if op in ("read", "cat", "head"):
            if op == "read":
                ok, got = S.attempt(vfs.read_file, path)
            else:
                r = sh.exec(op + " " + path)
                ok, got = r.exit_code == 0, r.stdout
            S.check(ok and got == (served[-1] if static is None else static), "a read shows what the provider returns now (or what was last written)")
            expect = 1
        elif op in ("grep", "search"):
            r = sh.exec("grep x " + path if op == "grep" else "search --no-line-number x " + path)
            now = served[-1] if static is None else static
            S.check(("x" in r.stdout[len(path) + 1:]) == ("x" in now), "searching looks at what the provider returns now")
            expect = 1
        elif op in ("ls", "find", "tree", "exists", "glob", "touch"):
            if op == "ls":
                S.check(len(vfs.ls("/d")) >= 1, "listed")
            elif op == "exists":
                S.check(vfs.exists(path) and vfs.is_file(path) and not vfs.is_dir(path), "a dynamic file is a file")
            elif op == "glob":
                S.check(path in vfs.glob("/*/*"), "found by a pattern")
            elif op == "touch":
                vfs.touch(path)
            else:
                r = sh.exec(op + " /")
                S.check(r.exit_code == 0, "listed")
            S.check(len(seen) == before, "listing does not call the provider")
            continue
        elif op in ("append", "append-sh"):
            if op == "append":
                vfs.append_file(path, "+")
            else:
                sh.exec("append " + path + " +")
            static = (served[-1] if static is None else static) + "+"
            S.check(vfs.read_file(path) == static, "appending keeps the provided text and adds to it")
            continue
        elif op == "write":
            vfs.write_file(path, "new")
            static = "new"
            S.check(vfs.read_file(path) == "new", "a written file keeps what was written")
            S.check(len(seen) == before, "writing does not call the provider")
            continue
        elif op == "move":
            new = "/d/q%d" % i
            vfs.move(path, new)
            path = new
            continue
        elif op == "copy":
            new = "/d/c%d" % i
            vfs.copy(path, new)
            now = served[-1] if static is None else static
            count = len(seen)
            S.check(vfs.read_file(new) == now and len(seen) == count, "a copy holds the text the provider returned when copying")
            continue
        elif op == "meta":
            vfs.get_node(path).metadata["k"] = "w"
            continue
        else:
            broken[0] = True
            tree = dump_static(vfs, path)
            for call in (lambda: vfs.read_file(path), lambda: vfs.append_file(path, "+"), lambda: vfs.copy(path, "/d/z")):
                if static is not None:
                    continue
                ok, exc = S.attempt(call)
                S.check(not ok and isinstance(exc, S.exc.ProviderError), "a failing provider is reported as ProviderError")
            r = sh.exec("cat " + path)
            S.check((r.exit_code != 0) == (static is None), "and as a failure of the command")
            S.check(S.eq(dump_static(vfs, path), tree) and not vfs.exists("/d/z"), "a failing provider changes nothing")
            broken[0] = False
            S.cover("failed")
            continue
        if static is not None:
            S.check(len(seen) == before, "a written file no longer consults its provider")
        else:
            S.check(len(seen) > before, "the provider is consulted on every read")
            p, m, v = seen[-1]
            S.check(p == path and v is vfs and m.get("k") == vfs.get_node(path).metadata["k"], "the provider gets the file's current path, metadata and filesystem")
    S.cover("dynamic" if static is None else "static")


def dump_static(vfs, path):
    return [(str(p), n.version, "d" if hasattr(n, "children") else "f" if str(p) == path else n.read(vfs)) for p, n in vfs.walk("/")]


def snapshot_of(S, calls, broken=None):
    """A provided directory; returns (provider, texts)."""
    P = S.sandfs.ProvidedNode
    a, b, c, e = (S.str(x, 1, 1, alphabet="xyz") for x in ("a", "b", "c", "e"))

    def lazy(ctx):
        calls.append(("lazy", str(ctx.path), ctx.vfs))
        return {"deep": P.file(content=c), "lazier": P.directory(directory_provider=lazier)}

    def lazier(ctx):
        calls.append(("lazier", str(ctx.path), ctx.vfs))
        return {"end": P.file(content_provider=lambda x: e)}

    def top(ctx):
        calls.append(("top", str(ctx.path), ctx.vfs))
        if broken and broken[0]:
            broken[0] -= 1
            raise OSError("not now")
        return {"f": P.file(content=a, metadata={"m": 1}),
                "n": P.directory(children={"g": P.file(content=b), "h": P.directory(children={})}, metadata={"d": 2}),
                "l": P.directory(children={"st": P.file(content=b)}, directory_provider=lazy), "z": P.file()}
    return top, {"/p/f": a, "/p/n": None, "/p/n/g": b, "/p/n/h": None, "/p/l": None, "/p/l/st": b, "/p/l/deep": c, "/p/l/lazier": None, "/p/l/lazier/end": e, "/p/z": ""}


def directory(S, first):
    vfs = S.sandfs.VirtualFileSystem()
    sh = S.sandfs.SandboxShell(vfs)
    calls = []
    top, want = snapshot_of(S, calls)
    vfs.mount_directory("/p", top, metadata={"own": 3})
    S.check(not calls, "mounting does not call the provider")
    extra = {}
    if first == "ls":
        S.check(sorted(e.name for e in vfs.ls("/p")) == ["f", "l", "n", "z"], "listing shows the provided entries")
    elif first == "read":
        S.check(vfs.read_file("/p/f") == want["/p/f"], "a provided file can be read at once")
    elif first == "exists":
        S.check(vfs.exists("/p/n/g") and not vfs.exists("/p/zz"), "provided files exist")
    elif first == "is_dir":
        S.check(vfs.is_dir("/p/l") and vfs.is_file("/p/f"), "provided nodes have their kind")
    elif first == "walk":
        S.check(sorted(str(p) for p, _ in vfs.walk("/p")) == sorted(["/p"] + list(want)), "walking visits the provided nodes")
    elif first == "find":
        S.check(sorted(sh.exec("find /p").stdout.split("\n")) == sorted(["/p"] + list(want)), "find lists the provided nodes")
    elif first == "tree":
        S.check("deep" in vfs.tree("/p"), "the tree shows the provided nodes")
    elif first == "grep":
        r = sh.exec("grep -r -e . /p")
        S.check(S.eq(sorted(r.stdout.split("\n")), sorted(p + ":" + want[p] for p in want if want[p])), "searching reads the provided files")
    elif first == "cd":
        vfs.cd("/p/l/lazier")
        S.check(vfs.read_file("end") == want["/p/l/lazier/end"], "provided directories can be entered")
    elif first == "write":
        vfs.write_file("/p/new", "w")
        extra["/p/new"] = "w"
    elif first == "mkdir":
        vfs.mkdir("/p/l/sub")
        extra["/p/l/sub"] = None
    elif first == "glob":
        S.check(vfs.glob("/p/l/*/end") == ["/p/l/lazier/end"], "patterns find the provided nodes")
    elif first == "copy":
        vfs.copy("/p", "/c", recursive=True)
        S.check(S.eq(sorted((str(p)[2:], None if hasattr(x, "children") else x.read(vfs)) for p, x in vfs.walk("/c") if str(p) != "/c"), sorted((k[2:], v) for k, v in want.items())), "a copy has the provided nodes")
    elif first == "sh ls":
        S.check(sh.exec("ls /p").stdout == "l/  n/  f  z", "listing shows the provided entries")
    else:
        S.check(vfs.read_file("/p/l/lazier/end") == want["/p/l/lazier/end"], "lazily provided files can be read at once")
    want.update(extra)
    got = {str(p): None if hasattr(x, "children") else x.read(vfs) for p, x in vfs.walk("/p") if str(p) != "/p"}
    S.check(S.eq(sorted(got.items()), sorted(want.items())), "a provided directory has exactly the provided entries")
    S.check(vfs.get_node("/p/f").metadata.get("m") == 1 and vfs.get_node("/p/n").metadata.get("d") == 2 and vfs.get_node("/p").metadata.get("own") == 3, "with their metadata")
    for level, path in (("top", "/p"), ("lazy", "/p/l"), ("lazier", "/p/l/lazier")):
        mine = [c for c in calls if c[0] == level and (first != "copy" or not c[1].startswith("/c"))]
        S.check(len(mine) == 1, "a directory provider is called exactly once")
        S.check(mine[0][1] == path and mine[0][2] is vfs, "with the directory's path and the filesystem")
    # later changes stay
    vfs.remove("/p/f")
    vfs.write_file("/p/n/g", "changed")
    S.check(not vfs.exists("/p/f") and vfs.read_file("/p/n/g") == "changed" and len(calls) == 3, "a loaded directory is an ordinary one")
    S.cover("loaded")


def retry(S, how):
    vfs = S.sandfs.VirtualFileSystem()
    calls = []
    broken = [1]
    top, want = snapshot_of(S, calls, broken)
    vfs.mount_directory("/p", top)
    before = len(vfs.ls("/"))
    fn = {"read": lambda: vfs.read_file("/p/f"), "ls": lambda: vfs.ls("/p"), "exists": lambda: vfs.exists("/p/f"), "write": lambda: vfs.write_file("/p/new", "w"),
          "find": lambda: list(vfs.iter_files("/p")), "walk": lambda: list(vfs.walk("/"))}[how]
    ok, exc = S.attempt(fn)
    S.check(not ok and isinstance(exc, S.exc.ProviderError), "a failing directory provider is reported as ProviderError")
    S.check(len(vfs.ls("/")) == before, "and changes nothing")
    got = {str(p): None if hasattr(x, "children") else x.read(vfs) for p, x in vfs.walk("/p") if str(p) != "/p"}
    S.check(S.eq(sorted(got.items()), sorted(want.items())), "the next access asks again and gets everything")
    S.cover("failed")


def remount(S):
    P = S.sandfs.ProvidedNode
    vfs = S.sandfs.VirtualFileSystem()
    a, b = S.str("a", 1, 1), S.str("b", 1, 1)
    vfs.mount_directory("/p", lambda ctx: {"one": P.file(content=a)})
    S.check(vfs.read_file("/p/one") == a, "loaded")
    vfs.mount_directory("/p", lambda ctx: {"two": P.file(content=b)})
    S.check(vfs.read_file("/p/two") == b, "mounting again loads the new provider's entries")
    S.cover("loaded")


def precedence(S):
    P = S.sandfs.ProvidedNode
    vfs = S.sandfs.VirtualFileSystem()
    a, b = S.str("a", 0, 1), S.str("b", 1, 1)
    n = S.str("n", 1, 1, alphabet="fg")
    how = S.pick("how", 4)
    if how == 3:
        vfs.mkdir("/p/f", parents=True)
        vfs.mount_directory("/p", lambda ctx: {n: P.file(content=b), "h": P.file(content="h")})
        S.check(len(vfs.ls("/p")) == len(set(["f", "h", n])) and vfs.is_dir("/p/f") and vfs.read_file("/p/h") == "h", "an existing directory is not replaced by a provided file")
        vfs.mount_directory("/q", lambda ctx: {"d": P.directory(children={"k": P.file(content=b)})})
        S.cover("loaded")
        return
    if how == 0:
        vfs.write_file("/p/f", a)
    elif how == 1:
        vfs.mkdir("/p")
        vfs.touch("/p/f")
        a = ""
    else:
        vfs.mkdir("/p")
        vfs.mount_file("/p/f", lambda ctx: a)
    before = vfs.get_node("/p/f")
    before.metadata["own"] = 1
    vfs.mount_directory("/p", lambda ctx: {n: P.file(content=b), "h": P.file(content="h")})
    S.check(vfs.read_file("/p/f") == a, "an existing file is not replaced by a provided one")
    S.check(sorted(e.name for e in vfs.ls("/p")) == sorted(set(["f", "h", n])), "the others are added")
    S.check(vfs.get_node("/p/f").metadata == {"own": 1} and vfs.read_file("/p/f") == a, "and the file stays as it was")
    S.cover("loaded")


def attributes(S):
    s = S.sandfs
    P = s.ProvidedNode
    vfs = s.VirtualFileSystem()
    r, w, ap = S.bool("r"), S.bool("w"), S.bool("ap")
    mv = S.int("mv", 0, 3)
    pols = [s.NodePolicy(readable=r, writable=w, append_only=ap, classification="c", principals={"p"}) for _ in range(3)]
    vfs.mount_directory("/p", lambda ctx: {"f": P.file(content="x", metadata={"m": mv}, policy=pols[0]), "d": P.directory(children={"g": P.file(content_provider=lambda c: "x", policy=pols[1])}, metadata={"m": mv}, policy=pols[2])})
    for path in ("/p/f", "/p/d", "/p/d/g"):
        p = vfs.get_policy(path)
        S.check(S.eq((p.readable, p.writable, p.append_only, p.classification, sorted(p.principals)), (r, w, ap, "c", ["p"])), "provided nodes have the given policy")
        if path != "/p/d/g":
            S.check(vfs.get_node(path).metadata["m"] == mv, "and metadata")
    ok, _ = S.attempt(vfs.read_file, "/p/f")
    S.check(ok == r, "policies of provided nodes are enforced for reading")
    ok, _ = S.attempt(vfs.write_file, "/p/d/g", "y")
    S.check(S.iff(ok, S.all([w, S.neg(ap)])), "and for writing")
    S.cover("loaded")
