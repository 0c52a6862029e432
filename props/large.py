"""The properties at larger sizes: wide directories, deep paths, long texts, many entries and long histories, with a symbolic element singled out.

Every function named cNN_* is a further case of property CNN."""
from props import lib
from props.lib import Done, dump, same, subtree, tree_ok, under

BOUNDS = ("; in addition, larger instances: a directory of 24 files next to a chain of 12 nested directories, texts of 150 lines and 6000 characters, 30 steps, stages, words or entries, "
          "one of them (symbolic) singled out")

WIDE, DEEP = 24, 12


def cases(prop, tier):
    pre = prop.lower() + "_"
    return [("large " + n[len(pre):], {"_large": n}) for n in sorted(globals()) if n.startswith(pre)]


def run(S, name):
    globals()[name](S)


def chain(n=DEEP):
    return "/c" + "".join("/l%d" % i for i in range(1, n))


def files():
    out = {"/w/n%02d" % i: "text %d\nx%d" % (i, i) for i in range(WIDE)}
    p = "/c"
    for i in range(1, DEEP):
        p += "/l%d" % i
        out[p + "/f"] = "deep %d" % i
    return out


def forest(S, extra=None):
    vfs = S.sandfs.VirtualFileSystem()
    all_ = files()
    all_.update(extra or {})
    for p in all_:
        vfs.write_file(p, all_[p])
    return vfs, all_


def pick(S, all_, name="which"):
    return S.choice(name, sorted(all_))


def listed(vfs):
    return {str(p): n.read(vfs) for p, n in vfs.walk("/") if not hasattr(n, "children")}


def exact(S, vfs, want, what):
    S.check(S.eq(sorted(listed(vfs).items()), sorted(want.items())), what)


# -- the tree ---------------------------------------------------------------------
def c01_up(S):
    vfs, all_ = forest(S)
    k, a = S.pick("up", DEEP + 3), S.pick("down", DEEP)
    vfs.cd(chain())
    down = "".join("/l%d" % i for i in range(1, a + 1))
    p = "../" * k + "c" + down
    here = chain().split("/")[1:]
    want = "/" + "/".join(here[:max(0, len(here) - k)] + ["c"] + down.split("/")[1:])
    S.check(vfs.exists(p) == (want == "/c" + down), "long relative paths denote the location they spell")
    S.check(vfs.exists("/c" + down + "/.." * (a + 1)) and vfs.exists("/c" + down + "/.." * 20 + "/c"), "however often they go up")
    S.cover("hit")
    S.cover("miss")


def c02_wide(S):
    vfs, all_ = forest(S)
    p = pick(S, all_)
    op = S.choice("op", ["remove", "write", "append", "touch", "rm", "redirect"])
    if op == "remove":
        vfs.remove(p)
        del all_[p]
    elif op == "rm":
        S.check(S.sandfs.SandboxShell(vfs).exec("rm " + p).exit_code == 0, "removed")
        del all_[p]
    elif op == "touch":
        vfs.touch(p)
    elif op == "write":
        vfs.write_file(p, "new")
        all_[p] = "new"
    elif op == "append":
        vfs.append_file(p, "new")
        all_[p] += "new"
    else:
        S.sandfs.SandboxShell(vfs).exec("echo -n new > " + p)
        all_[p] = "new"
    exact(S, vfs, all_, "one of many files is changed, the others stay")
    tree_ok(S, vfs)


def c02_many(S):
    vfs = S.sandfs.VirtualFileSystem()
    text = ""
    k = S.pick("k", 30)
    for i in range(30):
        t = "<%d>" % i
        if i == k:
            vfs.write_file("/d/f", t)
            text = t
        else:
            vfs.append_file("/d/f", t)
            text += t
        S.check(vfs.read_file("/d/f") == text and vfs.get_version("/d/f") == i + 1, "each file holds what was written and appended")


def c02_long(S):
    vfs = S.sandfs.VirtualFileSystem()
    c = S.str("c", 1, 1)
    for n in (255, 256, 1023, 1024, 4095, 4096, 6000):
        t = "a" * n + c
        vfs.write_file("/f", t)
        S.check(vfs.read_file("/f") == t, "long texts are kept as they are")
        vfs.append_file("/f", c + "z")
        S.check(vfs.read_file("/f") == t + c + "z", "and extended")


def c03_one(S):
    """One node somewhere in a large tree forbids the operation on the whole."""
    vfs, all_ = forest(S)
    vfs.enable_full_text_index()
    p = pick(S, all_)
    bit = S.choice("bit", ["w", "ao"])
    vfs.set_policy(p, S.sandfs.NodePolicy(writable=bit != "w", append_only=bit == "ao"))
    before = dump(vfs, times=True)
    root = "/w" if p.startswith("/w") else "/c"
    op = S.choice("op", ["remove", "rm", "write", "move"])
    if op == "remove":
        ok, _ = S.attempt(vfs.remove, root, recursive=True)
    elif op == "rm":
        ok = S.sandfs.SandboxShell(vfs).exec("rm -r " + root).exit_code == 0
    elif op == "write":
        ok, _ = S.attempt(vfs.write_file, p, "x")
    else:
        ok, _ = S.attempt(vfs.move, p, "/elsewhere")
    if ok:
        return
    S.check(same(S, before, dump(vfs, times=True)), "a refused operation on a large tree changes nothing")
    found = sorted(str(r.path) for r in vfs.search(S.sandfs.SearchQuery("e")))
    S.check(found == sorted(all_), "not even the index")
    S.cover("refused")


def c04_large(S):
    vfs, all_ = forest(S)
    vfs.enable_full_text_index()
    src = S.choice("src", ["/w", "/c", "/c/l1", "/c/l1/l2/l3/l4/l5"] + sorted(all_)[::5])
    dst = S.choice("dst", ["/new", "/w/new", chain() + "/new"])
    before = dump(vfs)
    ok, _ = S.attempt(vfs.move, src, dst)
    after = dump(vfs)
    S.check(ok == (not under(dst, src)), "a large subtree moves anywhere but into itself")
    tree_ok(S, vfs)
    if ok:
        S.check(sorted(subtree(before, src)) == sorted(subtree(after, dst)) and not any(under(q, src) for q in after), "as a whole")
        S.check(S.eq(sorted(subtree(before, src).items()), sorted(subtree(after, dst).items())), "with everything it holds")
        found = sorted(str(r.path) for r in vfs.search(S.sandfs.SearchQuery("e")))
        S.check(found == sorted(q for q in after if after[q][0] == "f"), "and is found at its new place")


def c05_large(S):
    vfs, all_ = forest(S)
    p = pick(S, all_)
    vfs.get_node(p).metadata["k"] = "v"
    vfs.set_policy(p, S.sandfs.NodePolicy(classification="secret", principals={"a", "b"}, append_only=True))
    root = "/w" if p.startswith("/w") else "/c"
    vfs.copy(root, "/copy", recursive=True)
    a, b = subtree(dump(vfs), root), subtree(dump(vfs), "/copy")
    S.check(sorted(a) == sorted(b), "a large copy has all nodes")
    for q in a:
        S.check(S.eq([a[q][0], a[q][1], a[q][3], a[q][4]], [b[q][0], b[q][1], b[q][3], b[q][4]]), "each like its source")
    q = "/copy" + p[len(root):]
    vfs.get_node(q).metadata["k"] = "w"
    vfs.append_file(q, "+")
    S.check(S.eq(sorted(subtree(dump(vfs), root).items()), sorted(a.items())), "and of its own")


def c06_large(S):
    vfs, all_ = forest(S)
    p = pick(S, all_)
    up = S.flag("dir")
    node = p.rsplit("/", 1)[0] if up else p
    vfs.set_policy(node, S.sandfs.NodePolicy(writable=False))
    before = subtree(dump(vfs), node)
    names = sorted(q for q in all_ if under(q, node))
    sh = S.sandfs.SandboxShell(vfs)
    line = S.choice("line", ["rm -r /w", "rm -r /c", "write {} x", "append {} x", "echo x >> {}", "mv {} /x", "cp /w/n00 {}", "touch {}", "rm {}", "mv /c /x/y"])
    sh.exec(line.format(p))
    if vfs.exists(node):
        got = subtree(dump(vfs), node)
        if up:
            S.check(sorted(q for q in got if q.count("/") <= 1) == sorted(q for q in before if q.count("/") <= 1), "a read-only directory keeps its entries")
        else:
            S.check(S.eq(got, before), "a read-only file stays as it is")
    else:
        S.check(line == "mv /c /x/y", "and where it is")
    S.cover("refused")


def c07_many(S):
    vfs = S.sandfs.VirtualFileSystem()
    vfs.write_file("/d/f", "start")
    vfs.set_policy("/d/f", S.sandfs.NodePolicy(append_only=True))
    sh = S.sandfs.SandboxShell(vfs)
    k = S.pick("k", 20)
    how = S.choice("how", ["write", "sh", ">", "cp", "mv", "rm", "none"])
    old = "start"
    for i in range(20):
        if i == k:
            if how == "write":
                S.attempt(vfs.write_file, "/d/f", "x" * 200)
            else:
                sh.exec({"sh": "write /d/f x", ">": "echo start > /d/f", "cp": "cp /d/f /e\ncp /e /d/f", "mv": "mv /d/f /g", "rm": "rm /d/f", "none": "pwd"}[how])
        else:
            vfs.append_file("/d/f", "+%d" % i)
        S.check(vfs.exists("/d/f"), "an append-only file stays")
        now = vfs.read_file("/d/f")
        S.check(now[:len(old)] == old, "and only grows")
        old = now


def c08_one(S):
    vfs, all_ = forest(S)
    p = pick(S, all_)
    up = S.flag("dir")
    node = p.rsplit("/", 1)[0] if up else p
    hidden = [q for q in all_ if under(q, node)]
    for q in hidden:
        vfs.write_file(q, "secret-text")
    index = S.flag("index")
    if index:
        vfs.enable_full_text_index()
    vfs.set_policy(node, S.sandfs.NodePolicy(readable=False))
    sh = S.sandfs.SandboxShell(vfs)
    for line in ("grep -r secret /", "search secret /", "rg secret", "grep -r -n . /", "cat /w/*", "find / -name nothing"):
        S.check("secret" not in sh.exec(line).stdout, "the one unreadable node among many is not disclosed")
    if not up:
        for line in ("cat {}", "head {}", "tail {}", "wc {}", "grep s {}", "cp {} /x", "cat < {}"):
            r = sh.exec(line.format(p))
            S.check(r.exit_code != 0 and "secret" not in r.stdout, "nor by naming it")
    S.check(all("secret" not in r.line_text for r in vfs.search(S.sandfs.SearchQuery("e"))), "nor by searching")
    S.cover("refused")


def c09_one(S):
    vfs, all_ = forest(S)
    p = pick(S, all_)
    vfs.write_file(p, "secret-text")
    vfs.set_policy(p, S.sandfs.NodePolicy(classification="secret"))
    sh = S.sandfs.SandboxShell(vfs, view=S.sandfs.VisibilityView(classifications=["public"]))
    name = p.rsplit("/", 1)[1]
    for line in ("grep -r secret /", "search secret /", "cat /w/*", "cat " + p, "head " + p, "wc " + p, "cat < " + p):
        S.check("secret" not in sh.exec(line).stdout, "the one hidden file among many is not disclosed")
    if name != "f":
        for line in ("ls -l /w", "ls /w", "tree /", "find /", "echo /w/*"):
            S.check(name not in sh.exec(line).stdout, "nor listed")
    for line in ("rm -r /w", "rm -r /c", "write {} x", "mv {} /x", "append {} x", "rm {}", "mv /w /x"):
        sh.exec(line.format(p))
        S.check(vfs.exists(p) and vfs.read_file(p) == "secret-text", "nor altered")


def c10_one(S):
    vfs, all_ = forest(S)
    p = pick(S, all_)
    how = S.choice("how", ["class", "principal", "path", "meta"])
    V, P = S.sandfs.VisibilityView, S.sandfs.NodePolicy
    view = {"class": V(classifications=["special"]), "principal": V(principals=["x"]), "path": V(path_prefixes=[p]), "meta": V(metadata_filters={"k": "v"})}[how]
    if how == "class":
        vfs.set_policy(p, P(classification="special"))
        want = [p]
    elif how == "principal":
        vfs.set_policy(p, P(principals={"y"}))
        want = [q for q in all_ if q != p]
    elif how == "path":
        want = [p]
    else:
        vfs.get_node(p).metadata["k"] = "v"
        want = [p]
    sh = S.sandfs.SandboxShell(vfs, view=view)
    for q in all_:
        S.check((sh.exec("cat " + q).exit_code == 0) == (q in want), "a view shows exactly what its rules admit, among many")
    if how in ("principal", "path"):
        S.check(sorted(sh.exec("find / -type f").stdout.split("\n")) == sorted(want), "in listings, too")


def c11_many(S):
    vfs = S.sandfs.VirtualFileSystem()
    for i in range(30):
        if i % 2:
            vfs.append_file("/f", "x")
        else:
            vfs.write_file("/f", "x")
        S.check(vfs.get_version("/f") == i + 1, "versions count writes")
    e = S.int("e", 0, 40)
    ok, _ = S.attempt(vfs.write_file, "/f", "new", expected_version=e)
    S.check(S.iff(ok, e == 30), "after many writes only the current version is accepted")
    S.check(vfs.get_version("/f") == (31 if ok else 30), "and counted")


def c12_many(S):
    vfs, all_ = forest(S)
    got = []
    k = S.pick("k", 10)
    for i in range(10):
        vfs.register_write_hook("/w" if i == k else "/", lambda ev, i=i: got.append(("w", i, ev.path)))
        vfs.register_path_hook("/c" if i == k else "/", lambda ev, i=i: got.append(("p", i, ev.path, ev.event)))
    p = S.choice("p", ["/w/n05", chain() + "/f"])
    vfs.write_file(p, "new")
    S.check(sorted(got) == sorted([("w", i, p) for i in range(10) if i != k or p.startswith("/w")] + [("p", i, p, "update") for i in range(10) if i != k or p.startswith("/c")]), "each of many hooks hears each change once")
    del got[:]
    root = S.choice("root", ["/w", "/c"])
    vfs.remove(root, recursive=True)
    gone = [q for q in all_ if under(q, root)]
    want = [("p", i, q, "delete") for q in gone for i in range(10) if i != k or q.startswith("/c")]
    S.check(sorted(x for x in got if x[0] == "p") == sorted(want), "and each removal below its prefix")


def c13_many(S):
    A = S.mod("adapters")
    kind = S.choice("kind", ["mem", "fs"])
    texts = {"d%d/e%02d" % (i % 3, i): "t%d" % i for i in range(WIDE)}
    texts["/".join("l%d" % i for i in range(10)) + "/f"] = "deep"
    if kind == "mem":
        ad = A.MemoryStorageAdapter(texts)
    else:
        S.pathlib.Path("/host/r").mkdir(parents=True)
        ad = A.FileSystemAdapter(S.pathlib.Path("/host/r"))
        for q in texts:
            ad.write(q, texts[q], version=0)
    vfs = S.sandfs.VirtualFileSystem()
    vfs.mount_storage("/m", ad)

    def agree(what):
        S.check(S.eq(sorted(("/m/" + q, t) for q, t in texts.items()), sorted(listed(vfs).items())), what)
        S.check(S.eq(sorted((q, e.content) for q, e in ad.list().items()), sorted(texts.items())), what)
    agree("a large back end is mounted whole")
    p = S.choice("p", sorted(texts))
    op = S.choice("op", ["write", "append", "remove", "rmr", "ext", "extdel", "host"])
    if op == "write":
        vfs.write_file("/m/" + p, "new")
        texts[p] = "new"
    elif op == "append":
        for i in range(3):
            vfs.append_file("/m/" + p, "+")
        texts[p] += "+++"
    elif op == "remove":
        vfs.remove("/m/" + p)
        del texts[p]
    elif op == "rmr":
        root = p.split("/")[0]
        vfs.remove("/m/" + root, recursive=True)
        texts = {q: t for q, t in texts.items() if not q.startswith(root + "/")}
    elif op == "ext":
        ad.write(p, "other", version=ad.read(p).version)
        texts[p] = "other"
        vfs.sync_storage("/m")
    elif op == "extdel":
        ad.delete(p)
        del texts[p]
        vfs.sync_storage("/m")
    else:
        S.fs.handler = lambda argv, cwd, data, env: (S.fs.put(str(cwd) + "/m/" + p, "hosted"), Done(argv))[1]
        S.check(S.sandfs.SandboxShell(vfs).exec("host -p / x").exit_code == 0, "done")
        texts[p] = "hosted"
    agree("one of many stored files is changed, in both places")
    vfs.sync_storage("/m")
    agree("also after synchronising")


def c14_many(S):
    P = S.sandfs.ProvidedNode
    vfs = S.sandfs.VirtualFileSystem()
    vfs.write_file("/outside", "o")
    bad = S.choice("bad", ["..", "../outside", ".", "a/b", "/outside", ""])
    k = S.pick("k", 12)
    given = {(bad if i == k else "n%d" % i): P.file(content="x") for i in range(12)}
    vfs.mount_directory("/p/q", lambda ctx: given)
    S.attempt(vfs.ls, "/p/q")
    S.attempt(lambda: list(vfs.walk("/")))
    for q, n in list(walk_loaded(vfs)):
        S.check(q in ("/", "/outside", "/p", "/p/q") or q.startswith("/p/q/") and q.count("/") == 3, "provided entries stay in their directory")
    S.check(vfs.read_file("/outside") == "o", "others are left alone")


def walk_loaded(vfs):
    todo = [("/", vfs.root)]
    while todo:
        p, n = todo.pop()
        yield p, n
        if hasattr(n, "children"):
            for name, c in n.children.items():
                todo.append((("" if p == "/" else p) + "/" + name, c))


def c15_deep(S):
    A = S.mod("adapters")
    w = S.fs
    w.mkdir("/host")
    w.mkdir("/host/r")
    w.put("/host/secret", "secret")
    w.put("/secret", "secret")
    ad = A.FileSystemAdapter(S.pathlib.Path("/host/r"))
    n, m = S.pick("down", 9), S.pick("up", 11)
    p = "".join("d%d/" % i for i in range(n)) + "../" * m + "secret"
    host = w.tree("/")
    for fn in (lambda: ad.read(p).content, lambda: ad.write(p, "x", version=0), lambda: ad.delete(p)):
        ok, v = S.attempt(fn, also=(OSError, ValueError, KeyError))
        S.check(not ok or v != "secret", "long paths never lead outside the root")
    S.check(w.text("/host/secret") == "secret" and w.text("/secret") == "secret", "nothing outside is changed")


def c16_long(S):
    A = S.mod("adapters")
    S.fs.mkdir("/host")
    S.fs.mkdir("/host/r")
    ad = A.FileSystemAdapter(S.pathlib.Path("/host/r"))
    c = S.str("c", 1, 1)
    for n in (255, 1024, 4095, 8192):
        for t in ("a" * n + c, c + "\n" * n):
            e = ad.write("f", t, version=ad.read("f").version if "f" in ad.list() else 0)
            S.check(ad.read("f").content == t and ad.list()["f"].content == t, "long texts are stored as they are")
    S.cover("roundtrip")


def c16_many(S):
    A = S.mod("adapters")
    S.fs.mkdir("/host")
    S.fs.mkdir("/host/r")
    ad = A.FileSystemAdapter(S.pathlib.Path("/host/r"))
    k = S.pick("k", 20)
    v = 0
    for i in range(20):
        if i == k:
            S.fs.put("/host/r/d/f" if i else "/host/r/g", "theirs")
            ok, _ = S.attempt(ad.write, "d/f", "mine", version=v, also=(ValueError,))
            S.check(ok == (i == 0), "a change by others is noticed after many writes, too")
            v = ad.read("d/f").version
        else:
            e = ad.write("d/f", "t%d" % i, version=v)
            S.check(e.version != v, "every write has a version of its own")
            v = e.version
        S.check(ad.read("d/f").version == v, "that reading shows")


def c17_large(S):
    vfs, all_ = forest(S)
    p = pick(S, all_)
    vfs.get_node(p).metadata["k"] = "v"
    vfs.set_policy(p, S.sandfs.NodePolicy(classification="secret", principals={"a"}))
    for i in range(7):
        vfs.append_file(p, "+")
    vfs.cd(chain())
    before = dump(vfs, times=True)
    snap = vfs.snapshot()
    vfs.write_file(p, "other")
    op = S.choice("op", ["remove", "move", "many"])
    if op == "remove":
        vfs.remove("/w", recursive=True)
    elif op == "move":
        vfs.move("/c", "/x")
    else:
        for i in range(20):
            vfs.write_file("/new/%d" % i, "x")
    vfs.restore(snap)
    S.check(same(S, before, dump(vfs, times=True)), "a large tree is restored whole")
    S.check(vfs.pwd() == chain(), "with its working directory")
    tree_ok(S, vfs)


def c18_large(S):
    two = []
    p = pick(S, files())
    op = S.choice("op", ["write", "remove", "move", "copy", "append"])
    for index in (True, False):
        vfs, all_ = forest(S)
        if index:
            vfs.enable_full_text_index()
        if op == "write":
            vfs.write_file(p, "needle\n" * 40 + "x")
        elif op == "append":
            vfs.append_file(p, " needle")
        elif op == "remove":
            vfs.remove(p)
        elif op == "move":
            vfs.move(p, "/w/moved")
        else:
            vfs.copy("/c", "/w/copied", recursive=True)
        two.append([sorted((str(r.path), r.line_no, r.line_text) for r in vfs.search(S.sandfs.SearchQuery(q))) for q in ("needle", "x", "deep 1", "text 2")])
    S.check(S.eq(two[0], two[1]), "a large index finds what a search without finds")


def c19_long(S):
    vfs = S.sandfs.VirtualFileSystem()
    k = S.pick("k", 150)
    lines = ["line %d" % i for i in range(150)]
    lines[k] = "a needle"
    vfs.write_file("/d/f", "\n".join(lines) + "\n")
    sh = S.sandfs.SandboxShell(vfs)
    want = "/d/f:%d:a needle" % (k + 1)
    for line in ("grep -n needle /d/f", "rg -n needle /d", "search -n needle /", "grep -r -n needle /"):
        S.check(sh.exec(line).stdout.rstrip("\n") == want, "the one matching line of a long text is found, with its number")
    r = vfs.search(S.sandfs.SearchQuery("needle"))
    S.check([(str(x.path), x.line_no, x.line_text) for x in r] == [("/d/f", k + 1, "a needle")], "also by the API")


def c19_all(S):
    vfs, all_ = forest(S)
    index = S.flag("index")
    if index:
        vfs.enable_full_text_index()
    sh = S.sandfs.SandboxShell(vfs)
    want = sorted("%s:1:%s" % (p, t.split("\n")[0]) for p, t in all_.items())
    for line in ("grep -r -n e /", "search -n e /", "rg -n e /"):
        S.check(sorted(sh.exec(line).stdout.rstrip("\n").split("\n")) == want, "every match in a large tree is reported")


# -- the shell --------------------------------------------------------------------
def recorder(S, **k):
    vfs = S.sandfs.VirtualFileSystem()
    sh = S.sandfs.SandboxShell(vfs, **k)
    calls = []
    sh.register_command("show", lambda args, ctx: (calls.append((list(args), ctx.stdin)), "<" + ctx.stdin + ">")[1])
    return vfs, sh, calls


def c20_long(S):
    vfs, sh, calls = recorder(S)
    k = S.pick("k", 30)
    w = S.str("w", 1, 1, alphabet="a|>< ;#~")
    words = ["w%d" % i for i in range(30)]
    words[k] = w
    r = sh.exec("show " + " ".join("'" + x + "'" for x in words))
    S.check(r.exit_code == 0 and S.eq(calls[0][0], words), "a long line keeps all its words")
    for n in (500, 4096) if k == 0 else ():
        del calls[:]
        sh.exec("show '" + "a" * n + w + "' end")
        S.check(S.eq(calls[0][0], ["a" * n + w, "end"]), "long words, too")
    S.cover("words")
    for c in ("ok", "command", "commands"):
        S.cover(c)


def c21_stages(S):
    vfs, sh, calls = recorder(S)
    vfs.write_file("/i", "in")
    k = S.pick("k", 12)
    n = 12
    line = " | ".join(("show %d" % i) + (" < /i" if i == k else "") for i in range(n)) + " > /o"
    r = sh.exec(line)
    S.check(r.exit_code == 0 and [c[0] for c in calls] == [[str(i)] for i in range(n)], "all stages of a long pipeline run in order")
    text = ""
    for i in range(n):
        S.check(calls[i][1] == ("in" if i == k else text), "each reads what the one before it wrote")
        text = "<" + calls[i][1] + ">"
    S.check(vfs.read_file("/o") == text and r.stdout == "", "and the last writes the file")


def c21_script(S):
    vfs, sh, calls = recorder(S)
    k = S.pick("k", 30)
    lines = ["show %d >> /o" % i for i in range(30)]
    lines[k] = "false-command"
    r = sh.exec("\n".join(lines))
    S.check(r.exit_code != 0 and [c[0] for c in calls] == [[str(i)] for i in range(k)], "a long script runs up to its first failure")
    S.check((vfs.read_file("/o") if k else "") == "<>" * k, "with all effects so far")


def c22_many(S):
    names = ["pwd", "ls", "cat", "echo", "head", "tail", "wc", "tree", "find", "stat", "grep", "rg", "search", "help", "cd", "touch", "mkdir", "write", "append", "rm"]
    k = S.pick("k", len(names))
    vfs = S.sandfs.VirtualFileSystem()
    sh = S.sandfs.SandboxShell(vfs, allowed_commands=[n for i, n in enumerate(names) if i != k])
    j = S.pick("j", 6)
    r = sh.exec(" | ".join(names[k] if i == j else "echo x" for i in range(6)) if k != 3 else "echo x | pwd")
    S.check(r.exit_code != 0 and names[k] in r.stderr, "a command that is not on a long list does not run anywhere in a pipeline")
    r = sh.exec("echo x" if k != 3 else "pwd")
    S.check(r.exit_code == 0, "the others do")


def c23_long(S):
    limit = S.choice("limit", [255, 1024, 4096, 5000])
    d = S.pick("d", 5) - 2
    wide = S.flag("wide")
    vfs = S.sandfs.VirtualFileSystem()
    sh = S.sandfs.SandboxShell(vfs, max_output_bytes=limit)
    t = ("\u20ac" * ((limit + d) // 3) + "a" * ((limit + d) % 3)) if wide else "a" * (limit + d)
    vfs.write_file("/f", t)
    for line in ("cat /f", "cat /f | cat", "head -n 1 /f", "cat < /f"):
        r = sh.exec(line)
        if d > 0:
            S.check(r.exit_code != 0 and len(r.stdout.encode()) + len(r.stderr.encode()) <= max(limit, 200) and "aa" not in r.stdout and "\u20ac" not in r.stdout, "large output over the limit is rejected")
        else:
            S.check(r.exit_code == 0 and r.stdout == t, "and passes up to it")


def c24_large(S):
    vfs, all_ = forest(S)
    sh = S.sandfs.SandboxShell(vfs)
    line = S.choice("line", ["mkdir -p " + "/x" * 60, "cat " + "/x" * 300, "echo " + "a" * 5000, "cat " + "a" * 5000, "tree /", "find /", "ls " + " ".join(files()), "| " * 40, "echo " + "'" * 41, "echo x" + " > /o" * 10,
                             "A=1 " * 30 + "echo $A", "cat " + "../" * 100 + "f", "$" * 50, "echo " + "*" * 30, "echo x" + " | cat" * 40, "\n" * 50, "rm -r /w /c /none", "head -n " + "9" * 30 + " /w/n01", "grep " + "(" * 20 + " /w/n01", "host " * 20])
    S.fs.handler = lambda argv, cwd, data, env: Done(argv)
    ok, r = S.attempt(sh.exec, line, also=(Exception,))
    S.check(ok, "long lines never raise")
    S.check(isinstance(r.exit_code, int) and isinstance(r.stdout, str) and isinstance(r.stderr, str) and (r.exit_code == 0 or r.stderr != ""), "and have a result")


def c25_long(S):
    n = 120
    vfs = S.sandfs.VirtualFileSystem()
    sh = S.sandfs.SandboxShell(vfs)
    rows = ["row %d\n" % i for i in range(n)]
    last = S.flag("newline")
    text = "".join(rows) if last else "".join(rows)[:-1]
    if not last:
        rows[-1] = rows[-1][:-1]
    vfs.write_file("/f", text)
    k = S.pick("k", n + 2)
    S.check(sh.exec("head -n %d /f" % k).stdout == "".join(rows[:k]), "head prints exactly the requested part of a long text")
    S.check(sh.exec("tail -n %d /f" % k).stdout == ("".join(rows[-k:]) if k else ""), "so does tail")
    S.check(sh.exec("head -c %d /f" % (7 * k)).stdout == text[:7 * k], "by characters")
    S.check(sh.exec("tail -c %d /f" % (7 * k)).stdout == (text[-7 * k:] if k else ""), "at either end")
    S.check(sh.exec("wc -l /f").stdout.split()[0] == str(n) and sh.exec("wc -c /f").stdout.split()[0] == str(len(text)), "wc counts all of it")
    S.check(sh.exec("cat /f /f").stdout == text + text, "cat prints all of it")
    S.cover("part")


def c26_large(S):
    vfs, all_ = forest(S)
    sh = S.sandfs.SandboxShell(vfs)
    p = pick(S, all_)
    new = p + "x"
    vfs.move(p, new)
    all_[new] = all_.pop(p)
    dirs = sorted({q for f in all_ for q in lib.Ref().parents(f)} - {"/"})
    nodes = sorted(list(all_) + dirs)
    S.check(sorted(sh.exec("find /").stdout.split("\n")) == sorted(["/"] + nodes), "find lists a large tree whole")
    S.check(sorted(str(q) for q, _ in vfs.walk("/")) == sorted(["/"] + nodes), "so does walking")
    S.check(sorted(str(q) for q, _ in vfs.iter_files("/")) == sorted(all_), "and iterating")
    w = sorted(q[3:] for q in all_ if q.startswith("/w/"))
    S.check([e.name for e in vfs.ls("/w")] == w and sh.exec("ls /w").stdout.split() == w, "listing shows every entry")
    S.check(sh.exec("echo /w/*").stdout.split() == ["/w/" + q for q in w], "patterns match every entry")
    S.check(len(sh.exec("tree /").stdout.rstrip("\n").split("\n")) == len(nodes) + 1, "the tree has a line for each")
    S.check(len(sh.exec("ls -l /w").stdout.rstrip("\n").split("\n")) == len(w), "the long listing, too")


def c27_many(S):
    P = S.sandfs.ProvidedNode
    vfs = S.sandfs.VirtualFileSystem()
    k = S.pick("k", WIDE)
    calls = []
    asked = {}

    def level(n):
        def provider(ctx):
            calls.append(str(ctx.path))
            out = {"f%02d" % i: P.file(content="%d.%d" % (n, i)) for i in range(WIDE)}
            out["f%02d" % k] = P.file(content_provider=lambda c: asked.__setitem__(n, asked.get(n, 0) + 1) or "now")
            if n < 8:
                out["sub"] = P.directory(directory_provider=level(n + 1))
            return out
        return provider
    vfs.mount_directory("/p", level(0))
    path = "/p" + "/sub" * 8
    S.check(vfs.read_file(path + "/f%02d" % k) == "now" and len(calls) == 9, "deeply nested provided files are reached, each directory asked once")
    other = (k + 1) % WIDE
    S.check(vfs.read_file(path + "/f%02d" % other) == "8.%d" % other and len(vfs.ls(path)) == WIDE and len(calls) == 9, "with all their neighbours")
    S.check(sum(1 for _ in vfs.iter_files("/p")) == 9 * WIDE and asked == {8: 1}, "listing asks no file")
    for i in range(5):
        vfs.read_file("/p/f%02d" % k)
    S.check(asked == {8: 1, 0: 5}, "each read asks once")


def c28_large(S):
    vfs, all_ = forest(S)
    p = pick(S, all_)
    t = "long " * 1000 + S.str("c", 1, 1, alphabet="x\r\n\u20ac")
    vfs.write_file(p, t)
    all_[p] = t
    S.fs.mkdir("/out")
    vfs.export_to_path(S.pathlib.Path("/out/e"))
    got = {"/" + r[len("out/e/"):]: d.decode("utf-8") for r, kind, d in S.fs.tree("/") if kind == "f" and r.startswith("out/e/")}
    S.check(S.eq(sorted(got.items()), sorted(all_.items())), "a large tree is exported whole")
    S.cover("exported")


def c29_one(S):
    vfs, all_ = forest(S)
    before = dump(vfs)
    p = pick(S, all_)
    op = S.choice("op", ["change", "delete", "create"])
    got = []

    def process(argv, cwd, data, env):
        root = str(cwd)
        got.append({"/" + r: d.decode("utf-8") for r, kind, d in S.fs.tree(root) if kind == "f"})
        if op == "change":
            S.fs.put(root + p, "edited")
        elif op == "delete":
            S.fs.unlink(root + p)
        else:
            S.fs.put(root + p + ".new", "edited")
        return Done(argv)
    S.fs.handler = process
    S.check(S.sandfs.SandboxShell(vfs).exec("host -p / x").exit_code == 0, "edits are accepted")
    S.check(S.eq(sorted(got[0].items()), sorted(all_.items())), "a process sees a large tree whole")
    if op == "delete":
        del all_[p]
    else:
        all_[p + (".new" if op == "create" else "")] = "edited"
    exact(S, vfs, all_, "one of many files is edited, the others stay")
    after = dump(vfs)
    for q in all_:
        if q in before and q != p:
            S.check(S.eq(after[q], before[q]), "with version, policy and metadata")


def c30_many(S):
    vfs, all_ = forest(S)
    vfs.enable_search_view()
    p = pick(S, all_)
    vfs.write_file(p, "a\n" * 30 + "needle\n" + "b\n" * 30 + "needle")
    sh = S.sandfs.SandboxShell(vfs)
    S.check(sh.exec("find '/@search?q=needle' -type f").stdout.rstrip("\n") == "/@search" + p, "one match among many files is one result")
    S.check(sh.exec("cat '/@search?q=needle'" + p).stdout == p + ":31:needle\n" + p + ":62:needle", "listing its lines")
    r = sh.exec("find '/@search?q=e' -type f").stdout.rstrip("\n").split("\n")
    S.check(sorted(r) == sorted("/@search" + q for q in all_), "many matches are many results")


def c31_long(S):
    vfs = S.sandfs.VirtualFileSystem()
    sh = S.sandfs.SandboxShell(vfs)
    k = S.pick("k", 30)
    words = ["w%d" % i for i in range(30)]
    words[k] = S.str("w", 1, 2, alphabet="-nax")
    if k == 0:
        S.assume(words[0] != "-n")
    S.check(sh.exec("echo " + " ".join(words)).stdout == " ".join(words) + "\n", "echo prints all of many words")
    for w in words:
        S.assume(w[:1] != "-")
    sh.exec("write /f " + " ".join(words))
    S.check(vfs.read_file("/f") == " ".join(words), "write writes them all")
    sh.exec("append /f " + " ".join(words))
    S.check(vfs.read_file("/f") == " ".join(words) * 2, "append adds them all")


def c32_many(S):
    vfs, sh, calls = recorder(S)
    def make(i):
        return lambda args: "%d %s" % (i, ",".join(args))
    for i in range(20):
        sh.register_command("c%d" % i, make(i))
    k = S.pick("k", 20)
    r = sh.exec("c%d " % k + " ".join("a%d" % i for i in range(40)))
    S.check(r.exit_code == 0 and r.stdout == "%d " % k + ",".join("a%d" % i for i in range(40)), "each of many commands gets all of many words")
    S.check(all("c%d" % i in sh.available_commands() for i in range(20)), "all are known")


def c33_session(S):
    S.fs.mkdir("/home/p")
    for i in range(12):
        S.fs.put("/home/p/f%02d" % i, "t%d" % i)
    k = S.pick("k", 12)
    lines = ["cat /w/f%02d" % i for i in range(12)] + ["write /w/f%02d new" % k, "rm /w/f%02d" % ((k + 1) % 12), "cat /w/f%02d" % k, "exit", "cat /w/f00"]
    with S.console(lines, EOFError) as con:
        try:
            S.mod("cli").main(["shell", "--mount", "/home/p:/w"])
        except SystemExit:
            pass
    pos = -1
    for i in range(12):
        at = con.out.find("t%d" % i, pos + 1)
        S.check(at > pos, "a long session prints every result in order")
        pos = at
    S.check(con.out.find("new", pos) > pos, "up to its end")
    left = {r: d for r, kind, d in S.fs.tree("/home/p")}
    S.check(left["f%02d" % k] == b"new" and "f%02d" % ((k + 1) % 12) not in left and len(left) == 11, "and changes exactly the files named")
    S.cover("session")


def c34_one(S):
    vfs, all_ = forest(S)
    S.fs.tick()
    p = pick(S, all_)
    before = {q: (vfs.get_node(q).created_at, vfs.get_node(q).modified_at) for q in all_}
    op = S.choice("op", ["write", "touch", "read", "ls", "grep", "move"])
    t0 = S.fs.now / 1e9
    S.fs.tick()
    sh = S.sandfs.SandboxShell(vfs)
    if op == "write":
        vfs.write_file(p, "x")
    elif op == "touch":
        vfs.touch(p)
    elif op == "move":
        vfs.move(p, "/moved")
    else:
        sh.exec({"read": "cat " + p, "ls": "ls -l /w", "grep": "grep -r x /"}[op])
    for q in all_:
        n = vfs.get_node("/moved" if op == "move" and q == p else q)
        if q == p and op in ("write", "touch"):
            S.check(n.modified_at > t0 and n.created_at == before[q][0], "one of many files is changed now")
        else:
            S.check((n.created_at, n.modified_at) == before[q], "the others keep their times")


def c35_deep(S):
    vfs, all_ = forest(S)
    sh = S.sandfs.SandboxShell(vfs)
    a, b = S.pick("down", DEEP), S.pick("up", DEEP + 2)
    parts = []
    for step in ["c"] + ["l%d" % i for i in range(1, a + 1)]:
        S.check(sh.exec("cd " + step).exit_code == 0, "going down step by step")
        parts.append(step)
    for i in range(b):
        S.check(sh.exec("cd ..").exit_code == 0, "and up")
        parts = parts[:-1]
    S.check(vfs.pwd() == "/" + "/".join(parts), "leads where one expects")
    for i in range(3):
        vfs.move("/c", "/x%d" % i)
        vfs.move("/x%d" % i, "/c")
    S.check(vfs.pwd() == "/" + "/".join(parts), "and stays there")


def c38_many(S):
    m = S.sandfs.MemoryStorageAdapter({"e%d" % i: "t%d" % i for i in range(30)})
    k = S.pick("k", 30)
    for i in range(30):
        m.write("e%d" % i, "u%d" % i, version=0)
    for i in range(10):
        m.write("e%d" % k, "v%d" % i, version=1 + i)
    v = S.int("v", 0, 20)
    ok, _ = S.attempt(m.write, "e%d" % k, "last", version=v, also=(ValueError,))
    S.check(S.iff(ok, v == 11), "after many writes only the current version is accepted")
    got = m.list()
    for i in range(30):
        if i != k:
            S.check(got["e%d" % i].content == "u%d" % i and got["e%d" % i].version == 1, "the other entries stay")
    S.check(len(got) == 30, "none is lost")


def c39_long(S):
    vfs = S.sandfs.VirtualFileSystem()
    ex = S.sandfs.PythonExecutor(vfs)
    k = S.pick("k", 12)
    for i in range(12):
        if i == k:
            S.attempt(ex.run, "y = 1\nraise_this", also=(Exception,))
        r = ex.run("for i in range(200):\n    print('row', i)")
        S.check(r.stdout == "".join("row %d\n" % j for j in range(200)), "long outputs of many snippets are reported whole")
