import datetime

BOUNDS = ("two files (texts of up to 1 arbitrary character) in a nested directory, a provided and a stored file, a fifth path that may be created; histories of 2 (thorough: 3) operations out of 26 — API calls and shell commands, writing and not writing, succeeding and failing — each of which is judged; stat of files, directories and missing paths")
ASSUMPTIONS = ["the clock is a stand-in that advances with every query; times of directories and of files changed by a storage synchronisation are not specified"]
BUDGET = {"quick": 300, "thorough": 720}
COVERS = ("written", "kept", "created", "stat")

WRITE = ["write", "append", "sh write", "sh append", "redirect", "touch", "sh touch"]
COPY = ["copy over", "copy new"]
KEEP = ["read", "cat", "ls", "search", "grep", "tree", "find", "policy", "stat", "snapshot", "export", "get_version", "mkdir", "hook", "stale write", "read-only write", "index", "glob", "clock back"]
OPS = WRITE + COPY + KEEP + ["move", "restore", "remove"]


def cases(tier):
    return [(o, {"op": o}) for o in OPS] + [("stat", {"op": None})]


def run(S, op):
    vfs = S.sandfs.VirtualFileSystem()
    sh = S.sandfs.SandboxShell(vfs)
    if op is None:
        return stat(S, vfs, sh)
    t = S.str("t", 0, 1)
    vfs.write_file("/a", t)
    vfs.write_file("/d/b", t)
    vfs.mount_file("/p", lambda ctx: t)
    vfs.mount_storage("/s", S.sandfs.MemoryStorageAdapter({"k": t}))
    S.fs.tick()
    snap = []
    for k in range(3 if S.thorough else 2):
        step(S, vfs, sh, op if k == 0 else S.choice("op%d" % k, OPS), "/a" if k == 0 and op not in WRITE else S.choice("path%d" % k, ["/a", "/n", "/p", "/s/k"][:4 if k == 0 else 2 if not S.thorough else 3]), snap)


def times(vfs):
    return {str(p): (n.created_at, n.modified_at) for p, n in vfs.walk("/") if not hasattr(n, "children")}


def step(S, vfs, sh, op, path, snap):
    before = times(vfs)
    version = vfs.get_version(path) if vfs.is_file(path) else None
    t0 = S.fs.now / 1e9
    S.fs.tick()
    ok = True
    if op == "write":
        vfs.write_file(path, "new")
    elif op == "append":
        vfs.append_file(path, "more")
    elif op == "sh write":
        ok = sh.exec("write " + path + " x").exit_code == 0
    elif op == "sh append":
        ok = sh.exec("append " + path + " x").exit_code == 0
    elif op == "redirect":
        ok = sh.exec("echo x >> " + path).exit_code == 0
    elif op == "touch":
        vfs.touch(path)
    elif op == "sh touch":
        ok = sh.exec("touch " + path).exit_code == 0
    elif op == "copy over":
        vfs.copy("/d/b", "/c2")
        before["/c2"] = times(vfs)["/c2"]
        t0 = S.fs.now / 1e9
        S.fs.tick()
        vfs.copy("/d/b", "/c2")
    elif op == "copy new":
        if vfs.exists("/c"):
            vfs.remove("/c")
            del before["/c"]
        vfs.copy("/d/b", "/c")
    elif op == "read":
        S.attempt(vfs.read_file, path)
    elif op == "cat":
        sh.exec("cat " + path + " /d/b | wc")
    elif op == "ls":
        vfs.ls("/")
        sh.exec("ls -l / /d")
    elif op == "search":
        vfs.search(S.sandfs.SearchQuery("x"))
    elif op == "grep":
        sh.exec("grep -r x / | head -n 1")
    elif op == "tree":
        vfs.tree("/")
    elif op == "find":
        sh.exec("find / -name a")
    elif op == "policy":
        vfs.set_policy("/d/b", S.sandfs.NodePolicy())
    elif op == "stat":
        sh.exec("stat " + path)
    elif op == "snapshot":
        snap.append((vfs.snapshot(), before))
    elif op == "export":
        with vfs.materialize("/"):
            pass
    elif op == "get_version":
        vfs.get_version("/d/b")
    elif op == "mkdir":
        vfs.mkdir("/m/x", parents=True, exist_ok=True)
    elif op == "hook":
        vfs.register_write_hook("/", lambda e: None)
    elif op == "stale write":
        S.attempt(vfs.write_file, path, "x", expected_version=99)
    elif op == "read-only write":
        vfs.set_policy("/d/b", S.sandfs.NodePolicy(writable=False))
        S.attempt(vfs.write_file, "/d/b", "x")
        S.attempt(vfs.touch, "/d/b")
        vfs.set_policy("/d/b", S.sandfs.NodePolicy())
    elif op == "index":
        vfs.enable_full_text_index()
    elif op == "clock back":
        S.fs.now -= 10 ** 15
        return
    elif op == "glob":
        vfs.glob("/*")
    elif op == "remove":
        if vfs.exists(path):
            vfs.remove(path)
            del before[path]
    elif op == "move":
        if vfs.exists(path):
            vfs.move(path, "/d/moved")
            before["/d/moved"] = before.pop(path)
            vfs.move("/d", "/e")
            vfs.move("/e", "/d")
    elif op == "restore":
        if snap:
            vfs.restore(snap[-1][0])
            before = snap[-1][1]
    t1 = S.fs.now / 1e9
    after = times(vfs)
    S.check(ok, "the command succeeds")
    target = {"copy over": "/c2", "copy new": "/c"}.get(op, path if op in WRITE else None)
    for p in sorted(after):
        c, m = after[p]
        if p == target:
            continue
        S.check(p in before and before[p] == (c, m), "what is not written keeps its times")
        S.cover("kept")
    for p in before:
        S.check(p in after, "nothing disappears")
    if target is not None:
        c, m = after[target]
        S.check(t0 < m <= t1, "a write, append or touch sets the modification time to the present")
        if op in COPY:
            S.check(t0 < c <= t1 and c <= m, "a copy is a new file")
        elif target in before:
            S.check(c == before[target][0], "the creation time stays")
        else:
            S.check(t0 < c <= m, "a new file is created at the present")
            S.cover("created")
        if op in ("touch", "sh touch") and version is not None:
            S.check(vfs.get_version(path) == version, "touching is not writing")
        S.cover("written")


def stat(S, vfs, sh):
    n = S.pick("writes", 3)
    text = S.str("t", 0, 3)
    vfs.mkdir("/d")
    vfs.touch("/d/f")
    S.fs.tick()
    for k in range(n):
        vfs.write_file("/d/f", text)
        S.fs.tick()
    if n == 0:
        text = ""
    if S.flag("touched"):
        S.fs.tick()
        vfs.touch("/d/f")
    node = vfs.get_node("/d/f")
    vfs.get_node("/d").modified_at += S.pick("later", 2) * 100000
    vfs.cd("/d")
    arg = S.choice("arg", ["f", "/d/f", "../d/./f"])
    before = times(vfs)
    r = sh.exec("stat " + arg)
    S.check(r.exit_code == 0 and r.stderr == "", "an existing file has a status")
    words = r.stdout.split()
    S.check(words[words.index("File:") + 1] == "/d/f", "showing its path")
    S.check(words[words.index("Size:") + 1] == str(len(text)), "its size in characters")
    S.check(words[words.index("Vers:") + 1] == str(n), "its version")
    S.check("regular file" in r.stdout and "directory" not in r.stdout, "its kind")
    show = lambda x: datetime.datetime.fromtimestamp(x).strftime("%Y-%m-%d %H:%M:%S")
    S.check("Birth: " + show(node.created_at) in r.stdout and "Modify: " + show(node.modified_at) in r.stdout, "and its times")
    S.check(times(vfs) == before, "without changing anything")
    r = sh.exec("stat .")
    words = r.stdout.split()
    S.check(r.exit_code == 0 and words[words.index("File:") + 1] == "/d" and "directory" in r.stdout and "regular file" not in r.stdout, "directories have a status")
    S.check("Birth: " + show(vfs.get_node("/d").created_at) in r.stdout and "Modify: " + show(vfs.get_node("/d").modified_at) in r.stdout, "with their times")
    for line in ("stat", "stat /missing", "stat f/x"):
        r = sh.exec(line)
        S.check(r.exit_code != 0 and r.stdout == "" and r.stderr != "", "missing paths do not")
    S.cover("stat")
