from props import lib

BOUNDS = ("scripted host processes doing any 2 of 14 edits (nothing, changing, creating, deleting, renaming files and directories, replacing one kind by the other, also below hidden or unreadable entries) with arbitrary texts of up to 2 characters, in a tree "
          "of 11 nodes with hidden, unreadable, read-only and storage-backed files; started by host (with and without -p/-C/--), bash, sh or host fallback from 3 working directories, by shells with and without a restricting view; exit code, "
          "output and input symbolic; operands naming sandbox paths, and every operand of up to 4 (thorough: 5) characters over /, ., d and f")
ASSUMPTIONS = ["the host process is scripted and confined to the directory it is given; host filesystem as modelled by symx/fakefs.py", "symbolic links and bytes that are not UTF-8 left by the process are not specified"]
BUDGET = {"quick": 240, "thorough": 700}
COVERS = ("noop", "changed", "refused", "hidden")

EDITS = ["none", "change", "create", "nested", "mkdir", "delete", "rmdir", "rename", "todir", "tofile", "hidden", "readonly", "stored", "unstored", "same"]
SPELL = ["host x", "host -p /d x", "host -C /d/e -- x", "bash -c x", "sh", "nosuch", "host -- x", "host --path / x"]


def cases(tier):
    out = [(f"edit {e} {m}", {"kind": "edit", "arg": e, "mode": m}) for e in EDITS for m in ("all", "view")]
    out += [(f"start {s}", {"kind": "start", "arg": s, "mode": "all"}) for s in SPELL]
    out += [(k, {"kind": k, "arg": "", "mode": "all"}) for k in ("operands", "operand", "failing")]
    return out


def build(S, mode):
    s = S.sandfs
    vfs = s.VirtualFileSystem()
    texts = {"/f": S.str("t", 0, 1), "/d/g": "g\r\n", "/d/e/k": "k", "/d/secret": "hidden", "/d/un": "unreadable", "/ro": "fixed", "/m/s": "stored", "/hid/v": "in hidden dir", "/n/only": "o"}
    store = S.mod("adapters").MemoryStorageAdapter({"s": "stored"})
    for p in sorted(texts):
        if not p.startswith("/m/"):
            vfs.write_file(p, texts[p])
    vfs.mkdir("/d/empty")
    vfs.mount_storage("/m", store)
    vfs.get_node("/d/g").metadata["m"] = 5
    vfs.set_policy("/d/secret", s.NodePolicy(classification="secret"))
    vfs.set_policy("/hid", s.NodePolicy(classification="secret"))
    vfs.set_policy("/d/un", s.NodePolicy(readable=False))
    vfs.set_policy("/ro", s.NodePolicy(writable=False))
    view = s.VisibilityView(classifications=["public"]) if mode == "view" else None
    return vfs, texts, store, view


def listing(vfs, read=True):
    return {str(p): (None if hasattr(n, "children") else n.read(vfs), n.version, lib.pol(n), sorted(n.metadata.items())) for p, n in vfs.walk("/")}


def operand(S, sh, got):
    """Every short operand."""
    vfs = sh.vfs
    word = S.str("word", 1, 5 if S.thorough else 4, alphabet="/df.")
    norm = []
    for part in word.split("/"):
        if part == "..":
            norm = norm[:-1]
        elif part not in ("", "."):
            norm.append(part)
    at = "/" + "/".join(norm)
    if word[:1] != "/" or not (vfs.exists(at) or len(norm) > 1 and vfs.is_dir("/" + "/".join(norm[:-1]))):
        expect = word
    else:
        expect = "ROOT" + (at if norm else "") + ("/" if word[-1:] == "/" else "")
    sh.exec("host -p / x '" + word + "'")
    S.check(S.eq(got, [[expect]]), "operands naming sandbox paths become the matching host paths, others stay")
    S.cover("noop")


def run(S, kind, arg, mode):
    w = S.fs
    w.put("/etc/passwd", "root")
    S.fs.environ["OTHER"] = "host's"
    vfs, texts, store, view = build(S, mode)
    sh = S.sandfs.SandboxShell(vfs, view=view, env={"V": "value", "PATH": "/mine"}, host_fallback=True)
    hidden = ["/d/secret", "/hid", "/hid/v"] if mode == "view" else []
    kept = hidden + ["/d/un"]
    calls = []
    started = {}

    def shown(root):
        return {r: (None if k == "d" else d.decode("utf-8")) for r, k, d in w.tree(root)}

    def visible():
        out = {}
        for p, n in vfs.walk("/"):
            p = str(p)
            if p != "/" and p not in kept:
                out[p[1:]] = None if hasattr(n, "children") else n.read(vfs)
        return out
    before = listing(vfs)
    if kind == "start":
        code = S.int("code", 0, 2)
        o, e, data = S.str("o", 0, 1), S.str("e", 0, 1), S.str("in", 1, 1)
        vfs.cd(S.choice("cwd", ["/", "/d", "/d/e"]))
        here = vfs.pwd()

        def process(argv, cwd, stdin, env):
            calls.append((list(argv), cwd, stdin, dict(env)))
            return lib.Done(argv, code, o, e)
        w.handler = process
        sh.register_command("feed", lambda args: data)
        r = sh.exec("feed | " + arg)
        S.check(len(calls) == 1, "the host process is started once")
        argv, cwd, stdin, env = calls[0]
        S.check(argv == {"bash -c x": ["bash", "-c", "x"], "sh": ["sh"], "nosuch": ["nosuch"]}.get(arg, ["x"]), "with its arguments")
        S.check(stdin == data and env.get("V") == "value" and env.get("PATH") == "/mine" and env.get("OTHER") == "host's", "its input and the shell's variables")
        at = {"host -p /d x": "/d", "host -C /d/e -- x": "/d/e", "host --path / x": "/"}.get(arg, here)
        cwd = str(cwd)
        S.check(cwd.endswith(at) if at != "/" else not cwd.endswith("/d"), "in the sandbox's working directory or the one asked for")
        S.check((r.exit_code, r.stdout, r.stderr) == (code, o, e), "its outcome is passed on")
        S.check(S.eq(listing(vfs), before), "a process that changes nothing changes nothing in the tree")
        S.check(not [x for x, k, d in w.tree("/") if x.startswith("tmp/")], "no directory is left on the host")
        S.cover("noop")
        return
    if kind in ("operands", "operand"):
        got = []

        def process(argv, cwd, stdin, env):
            root = str(cwd)
            got.append([a.replace(root, "ROOT") for a in argv[1:]])
            return lib.Done(argv)
        w.handler = process
        vfs.write_file("/my file", "m")
        vfs.write_file("/\u00e9+x/d/g", "m")
        before = listing(vfs)
        if kind == "operand":
            return operand(S, sh, got)
        for line, want in (("host -p / x /f", ["ROOT/f"]), ("host -p / x /d/new", ["ROOT/d/new"]), ("host -p / x -o /d/g /d/e/", ["-o", "ROOT/d/g", "ROOT/d/e/"]), ("host -p / x http://a/f plain", ["http://a/f", "plain"]), ("host -p / x http://d/g ftp://d/new x=http://f", ["http://d/g", "ftp://d/new", "x=http://f"]), ("host -p / x //d//g", ["ROOT/d/g"]),
                           ("host -p / x 'a=/f:/d/g'", ["a=ROOT/f:ROOT/d/g"]), ("host -p / x d/g", ["d/g"]), ("host -p / x /nowhere/z", ["/nowhere/z"]), ("host -p / x /d/../f", ["ROOT/f"]),
                           ("host -p / x ./d/g ../d/g sub/d/g f/d", ["./d/g", "../d/g", "sub/d/g", "f/d"]), ("host -p / x / //", ["ROOT/", "ROOT/"]), ("host -p / x -I/d --file=/f", ["-IROOT/d", "--file=ROOT/f"]),
                           ("host -p / x 'cat sub/d/g /f; ls /d'", ["cat sub/d/g ROOT/f; ls ROOT/d"]), ("host -p / x '/my file' '/\u00e9+x/d/g' '/\u00e9+x/'", ["ROOT/my file", "ROOT/\u00e9+x/d/g", "ROOT/\u00e9+x/"]), ("host -p / x '$V/d/g' '~/d' 'a+b/f'", ["value/d/g", "~/d", "a+b/f"])):
            got.clear()
            r = sh.exec(line)
            S.check(r.exit_code == 0 and got == [want], "operands naming sandbox paths become the matching host paths, others stay")
        S.check(S.eq(listing(vfs), before), "nothing changes")
        S.cover("noop")
        return
    if kind == "failing":
        which = S.choice("exc", ["missing", "denied", "path", "file"])

        def process(argv, cwd, stdin, env):
            if which == "missing":
                raise FileNotFoundError(2, "no such program")
            raise PermissionError(13, "denied")
        w.handler = process
        r = sh.exec("host x" if which in ("missing", "denied") else "host -p /nowhere x" if which == "path" else "host -p /ro x")
        S.check(r.exit_code != 0 and r.stderr != "", "a process that cannot be started is a failure")
        S.check(S.eq(listing(vfs), before), "and changes nothing")
        S.check(not [x for x, k, d in w.tree("/") if x.startswith("tmp/")], "no directory is left on the host")
        S.cover("refused")
        return
    edits = [arg, S.choice("second", EDITS)]
    want = {p: before[p][0] for p in before if p != "/"}
    new = S.str("new", 1, 2 if S.thorough else 1, alphabet=None if S.thorough else "xk\r\n\u20ac")
    refused = []

    def process(argv, cwd, stdin, env):
        root = str(cwd)
        got = shown(root)
        S.check(S.eq(sorted(got.items()), sorted(visible().items())), "the process sees exactly the visible, readable part of the tree")
        for e in edits:
            apply(e, root)
        started["after"] = shown(root)
        return lib.Done(argv)

    def apply(e, root):
        def has(p):
            return any(r == p[1:] for r, k, d in w.tree(root))

        def isfile(p):
            return any(r == p[1:] and k == "f" for r, k, d in w.tree(root))

        def put(p, t):
            w.put(root + p, t)
            want[p] = t

        def rm(p):
            w.rmtree(root + p)
            drop(p)

        def drop(p):
            for q in [q for q in want if lib.under(q, p)]:
                if q not in kept and not any(lib.under(k, q) for k in kept if k in want):
                    del want[q]
        if e == "change" and isfile("/f") and has("/d/g"):
            put("/f", new)
            put("/d/g", "changed")
        elif e == "create":
            if has("/d"):
                put("/d/new", new)
        elif e == "nested":
            if not has("/x"):
                w.mkdir(root + "/x")
                w.mkdir(root + "/x/y")
                want["/x"] = want["/x/y"] = None
                put("/x/y/z", new)
        elif e == "mkdir":
            if not has("/fresh"):
                w.mkdir(root + "/fresh")
                want["/fresh"] = None
        elif e == "delete":
            if has("/f"):
                rm("/f")
            if has("/d/g"):
                rm("/d/g")
        elif e == "rmdir":
            if has("/d"):
                rm("/d")
        elif e == "rename":
            if has("/n"):
                rm("/n")
                w.mkdir(root + "/renamed")
                want["/renamed"] = None
                put("/renamed/only", "o")
        elif e == "todir":
            if has("/f"):
                rm("/f")
                w.mkdir(root + "/f")
                want["/f"] = None
                put("/f/in", new)
        elif e == "tofile":
            if has("/n"):
                rm("/n")
                put("/n", new)
        elif e == "hidden":
            # names the process cannot see are taken
            if has("/d"):
                w.put(root + "/d/un", "overwritten")
                refused.append("/d/un")
                if mode == "view":
                    w.put(root + "/d/secret", "overwritten")
        elif e == "readonly":
            w.put(root + "/ro", "altered")
            refused.append("/ro")
        elif e == "stored" and has("/m"):
            put("/m/s", new)
            put("/m/t", new)
        elif e == "unstored" and has("/m/s"):
            rm("/m/s")
        elif e == "same" and isfile("/f"):
            w.put(root + "/f", shown(root)["f"])
    w.handler = process
    r = sh.exec("host -p / x")
    S.check(len(started) == 1, "the host process is started once")
    after = listing(vfs)
    for p in kept + ["/ro"]:
        if p == "/d/un" and mode == "all" and "/d/un" in refused:
            continue    # whoever may write an unreadable file may replace its text
        S.check(S.eq(after.get(p), before[p]), "hidden, unreadable and read-only files are left alone")
        S.cover("hidden")
    S.check(not [x for x, k, d in w.tree("/") if x.startswith("tmp/")], "no directory is left on the host")
    if refused:
        S.cover("refused")
        return
    S.check(r.exit_code == 0, "edits are accepted")
    S.check(S.eq(sorted((p, after[p][0]) for p in after if p != "/"), sorted(want.items())), "the tree shows the process's edits and nothing else")
    for p in after:
        if p in before and S.eq(after[p][0], before[p][0]):
            S.check(S.eq(after[p], before[p]), "nodes the process did not change keep version, policy and metadata")
        elif p in before and before[p][0] is not None and after[p][0] is not None and not any(e in ("delete", "rmdir", "rename", "todir", "tofile", "unstored") for e in edits):
            S.check(after[p][1] == before[p][1] + 1, "a changed file advances its version")
    stored = {k: v.content for k, v in store.list().items()}
    S.check(S.eq(sorted(stored.items()), sorted((p[3:], after[p][0]) for p in after if p.startswith("/m/"))), "a storage back end follows")
    S.cover("noop" if edits == ["none", "none"] else "changed")
