from props.lib import Done

BOUNDS = ("a tree of three nested directories, a storage mount, a provided directory and a search view; histories of 3 (thorough: 4) steps out of 36 — going to directories by absolute, relative, upward and invalid paths, through the API and two shells, moving, removing and recreating the working directory and those above it, "
          "snapshots, synchronisation, host commands, every reading command — then a relative path of up to 2 (thorough: 3) arbitrary characters of a name, '.', '..' and '/', judged for existence, kind, reading and listing")
ASSUMPTIONS = ["what pwd reports after the working directory itself was removed and its place then moved is not specified"]
BUDGET = {"quick": 300, "thorough": 800}
COVERS = ("went", "refused", "moved", "restored", "kept", "relative")

CD = ["/", "/a", "/a/b", "b", "..", "../..", ".", "a/b/../b", "m/s", "/p", "missing", "/a/f", "f", "//a//b/", "/u"]
MOVES = ["mv /a /c", "mv /c /a", "mv /a/b /b", "mv /b /a/b", "mv . /z", "api /a /c"]
KEEP = ["ls", "tree /", "find / -name f", "cat /a/f", "grep x /a/f", "search x", "glob", "mkdir /n", "touch /a/b/t", "policy", "sync", "export", "host", "python", "bad", "search view", "cp -r /a /y", "walk"]


def cases(tier):
    out = [("cd %s" % c, {"first": "cd " + c, "n": 4 if tier == "thorough" else 3}) for c in CD if c not in ("missing", "f", ".", "..", "../..")]
    out += [("start " + k, {"first": k, "n": 4 if tier == "thorough" else 3}) for k in ("snapshot",)]
    out += [("keep " + k, {"first": "cd /a/b", "second": k, "n": 2}) for k in KEEP]
    out += [("keep root " + k, {"first": "cd /p", "second": k, "n": 2}) for k in KEEP]
    for gone in ("remove b", "remove a"):
        for back in ("cd /a/b", "cd //a//b/", "cd /a", "restore"):
            out.append((f"recreated {gone} {back}", {"first": "cd /a/b", "script": ["snapshot", gone, "make", back], "n": 6}))
    return out


def norm(cwd, s):
    parts = [] if s[:1] == "/" else [x for x in cwd.split("/") if x]
    for c in s.split("/"):
        if c == "..":
            parts = parts[:-1]
        elif c not in ("", "."):
            parts = parts + [c]
    return "/" + "/".join(parts)


def run(S, first, n, second=None, script=()):
    vfs = S.sandfs.VirtualFileSystem()
    vfs.write_file("/a/f", "x")
    vfs.write_file("/a/b/f", "x")
    vfs.write_file("/f", "x")
    vfs.write_file("/u/w/f", "x")
    vfs.set_policy("/u", S.sandfs.NodePolicy(readable=False))
    store = S.sandfs.MemoryStorageAdapter({"s/k": "x"})
    vfs.mount_storage("/m", store)
    vfs.mount_directory("/p", lambda ctx: {"q": S.sandfs.ProvidedNode.directory(children={}), "f": S.sandfs.ProvidedNode.file(content="x")})
    vfs.enable_search_view()
    S.fs.handler = lambda argv, cwd, data, env: Done(argv, 0, "", "")
    shells = [S.sandfs.SandboxShell(vfs), S.sandfs.SandboxShell(vfs)]
    cwd = "/"
    snaps = []
    for k in range(n):
        if k == 0:
            what = first
        elif k <= len(script):
            what = script[k - 1]
        elif second is not None:
            what = second
        else:
            what = S.choice("s%d" % k, ["cd"] + MOVES + ["snapshot", "restore", "remove b", "remove a", "make"])
            if what == "cd":
                what = "cd " + S.choice("to%d" % k, CD if S.thorough and k == 1 else ["..", "b", "../..", "missing", "/a/b", "f"])
        cwd = step(S, vfs, shells, what, cwd, snaps, k)
        S.check(vfs.pwd() == cwd, "the working directory is the one last gone to")
        S.check(vfs.exists(".") == vfs.exists(cwd), "and is where the tree says")
    out = shells[1].exec("pwd")
    S.check(out.exit_code == 0 and out.stdout == cwd, "shells share it")
    relative(S, vfs, shells[0], cwd)


def step(S, vfs, shells, what, cwd, snaps, k):
    if what.startswith("cd "):
        to = what[3:]
        where = norm(cwd, to)
        good = vfs.is_dir(where) and where != "/u"
        if S.pick("via%d" % k, 2) if k == 0 else k % 2:
            r = shells[k % 2].exec("cd " + to)
            ok = r.exit_code == 0
            if ok:
                S.check(r.stdout == where, "cd says where it went")
        else:
            ok, r = S.attempt(vfs.cd, to)
            S.check(not ok or r == where, "cd returns where it went")
        S.check(ok == good, "one can go exactly to directories")
        S.cover("went" if ok else "refused")
        return where if good else cwd
    if what.startswith(("mv ", "api ")):
        how, src, dst = what.split()
        src, dst = norm(cwd, src), norm(cwd, dst)
        if vfs.is_dir(dst) and vfs.exists(src) and src != dst:
            dst = norm("/", dst + "/" + src.rsplit("/", 1)[-1])
        had = vfs.exists(src)
        there = vfs.exists(dst)
        gone = not vfs.exists(cwd)
        if how == "mv":
            ok = shells[0].exec("mv " + what[3:]).exit_code == 0
        else:
            ok = S.attempt(vfs.move, src, dst)[0]
        S.check(not ok or had, "only what exists is moved")
        if ok and (cwd == src or cwd.startswith(src + "/")):
            S.assume(not gone)
            S.cover("moved")
            return dst + cwd[len(src):]
        return cwd
    if what == "snapshot":
        snaps.append((vfs.snapshot(), cwd, vfs.is_dir(cwd)))
        return cwd
    if what == "restore":
        if not snaps:
            return cwd
        vfs.restore(snaps[-1][0])
        S.cover("restored")
        return snaps[-1][1] if snaps[-1][2] else "/"
    if what in ("remove a", "remove b"):
        path = "/a" if what == "remove a" else "/a/b"
        if vfs.exists(path):
            vfs.remove(path, recursive=True)
        return cwd
    if what == "make":
        vfs.write_file("/a/b/f", "x")
        return cwd
    sh = shells[0]
    if what == "glob":
        vfs.glob("*")
        vfs.glob("*", cwd="/a")
    elif what == "policy":
        vfs.set_policy("/a/b", S.sandfs.NodePolicy(writable=False))
    elif what == "sync":
        vfs.sync_storage("/m")
    elif what == "export":
        with vfs.materialize("/"):
            pass
    elif what == "host":
        sh.exec("host ls")
        sh.exec("host -C /a ls")
        sh.exec("host -p /m ls")
    elif what == "python":
        sh.exec("python -c 'x = vfs.ls()'")
    elif what == "bad":
        for line in ("cd", "cd /a /a/b", "cd missing", "nothing", "cat /missing", "cd /a/f"):
            sh.exec(line)
    elif what == "search view":
        sh.exec("ls '/@search?q=x'")
        sh.exec("cat '/@search?q=x/a/f'")
    elif what == "walk":
        list(vfs.walk("/"))
        list(vfs.iter_files("/"))
    else:
        sh.exec(what)
    S.cover("kept")
    return cwd


def relative(S, vfs, sh, cwd):
    rel = S.str("rel", 1, 3 if S.thorough else 2, "bf./")
    S.assume(rel[:1] != "/")
    full = norm(cwd, rel)
    S.check(vfs.exists(rel) == vfs.exists(full) and vfs.is_dir(rel) == vfs.is_dir(full) and vfs.is_file(rel) == vfs.is_file(full), "a relative path starts at the working directory")
    if vfs.is_file(full):
        S.check(S.eq(sh.exec("cat " + rel).stdout, vfs.read_file(full)), "in commands too")
    elif vfs.is_dir(full):
        S.check(S.eq(sorted([e.name for e in vfs.ls(rel)]), sorted([e.name for e in vfs.ls(full)])), "in listings too")
    S.cover("relative")
