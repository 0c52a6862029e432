from props.lib import dump, same

BOUNDS = ("path strings of up to 5-6 (thorough: 7-8) characters over '/', '.', 'a', 'b'; paths of up to 4 (5) segments among two names, '.' and '..'; three working directories; "
          "a tree of three directories and three files; every path-taking operation of the filesystem and of the shell; relative paths of up to 3 segments used twice, with the working directory changed, moved, recreated or restored in between, over 6 files in equally named directories; "
          "16 operations on each of 34 unusual names (blanks, other scripts, combining and full-width characters, percent and backslash escapes, dots, tildes, upper case) beside similar ones, and on names of up to 2 arbitrary characters over 11")
ASSUMPTIONS = ["in the cases over whole path strings, names are represented by the letters a and b; the names cases use the unusual ones"]
BUDGET = {"quick": 150, "thorough": 600}
COVERS = ("hit", "miss")

OPS = ["read", "write", "append", "mkdir", "touch", "exists", "cd", "ls", "remove", "move_to", "copy_to", "move_from",
       "version", "policy", "hookprefix", "iter", "tree", "pureposix", "mount", "cat", "shell_cd", "redirect"]


def cases(tier):
    out = []
    for op in OPS:
        for cwd in ("/", "/a", "/a/b"):
            out.append((f"{op}@{cwd}", {"op": op, "cwd": cwd, "n": (5 if op in ("read", "write", "cd") else 4) + (3 if tier == "thorough" else 1)}))
    for op in ("exists", "cd", "read", "write", "shell_cd"):
        for cwd in ("/", "/a/b"):
            out.append((f"segments {op}@{cwd}", {"op": op, "cwd": cwd, "n": -(5 if tier == "thorough" else 4)}))
    for way in ("cd", "move", "recreate", "cd node", "restore"):
        out.append((f"again {way}", {"op": "again", "cwd": way, "n": 2}))
    for op in NAME_OPS:
        out.append((f"names {op}", {"op": "names", "cwd": op, "n": 0}))
    out.append(("names any", {"op": "names", "cwd": "any", "n": 0}))
    return out


NAME_OPS = ["read", "write", "append", "touch", "mkdir", "remove", "move", "copy", "cd", "policy", "hook", "ls", "through", "cat", "redirect", "mount"]
GROUPS = [["a", "A", " a", "a ", "\ta", "a\n", "%61", "\uff41", "\u200b", "a\u00a0"], ["a b", "a\\b", "a\\", "a%2Fb", "a:b", "C:"],
          ["...", "..a", "a..", ".a", "%2e%2e", "0", "None"], ["~", "~root", "-", "*", "[a]", "$a", "#a"], ["caf\u00e9", "cafe\u0301", "\u00df", "ss"]]


def names(S, op):
    """A name is exactly its characters: every name denotes a node of its own."""
    vfs = S.sandfs.VirtualFileSystem()
    if op == "any":
        vfs.write_file("/a", "at a")
        vfs.write_file("/A", "at A")
        vfs.mkdir("/d")
        vfs.cd("/d")
        nm = S.str("name", 1, 2, alphabet=" aA.%~\\\u00e9\u0301e\t")
        S.assume(nm != "." and nm != "..")
        path = S.choice("spelling", ["/", "../", "/./", "//"]) + nm
        S.check(vfs.exists(path) == (nm == "a" or nm == "A"), "exactly the names that were created exist")
        vfs.write_file(path, "new")
        S.cover("hit" if nm == "a" or nm == "A" else "miss")
        S.check(S.eq(vfs.get_node(path).name, nm), "a created file has exactly this name")
        S.check(S.eq(sorted(n.name for _, n in vfs.walk("/") if not hasattr(n, "children")), sorted({"a", "A"} | {str(nm)})), "no other file appears")
        S.check(nm == "a" or vfs.read_file("/a") == "at a", "no other file is written")
        return
    group = S.choice("group", GROUPS)
    name = S.choice("name", group)
    present = S.flag("present")
    for n in group:
        if n != name or present:
            vfs.write_file("/" + n, "at " + n)
            vfs.write_file("/d/" + n + "/f", "below " + n)
            vfs.mkdir("/d/" + n + "/sub")
    vfs.write_file("/src", "src")
    vfs.mkdir("/d", exist_ok=True)
    vfs.cd("/d")
    before = dump(vfs)
    style = S.pick("style", 3)
    p = ["/", "../", "/d/../"][style] + name
    q = ["/d/", "./", "//d//"][style] + name
    only = []
    sh = S.sandfs.SandboxShell(vfs)
    S.cover("hit" if present else "miss")
    plain = not any(c in name for c in "\n$*[]'")
    if op in ("read", "cat"):
        if op == "cat":
            S.assume(plain)
            r = sh.exec("cat '" + p + "'")
            ok, v = r.exit_code == 0, r.stdout
        else:
            ok, v = S.attempt(vfs.read_file, p)
        S.check(ok == present and (not ok or v == "at " + name), "the file of this name is read")
        S.check(vfs.exists(p) == present and vfs.exists(q) == present, "exactly the names that were created exist")
    elif op in ("write", "append", "touch", "redirect"):
        if op == "redirect":
            S.assume(plain)
            sh.exec("echo -n new > '" + p + "'")
        elif op == "touch":
            vfs.touch(p)
        else:
            (vfs.write_file if op == "write" else vfs.append_file)(p, "new")
        S.check(vfs.get_node("/" + name).name == name, "the file has exactly this name")
        S.check(vfs.read_file("/" + name) == ("at " + name if present and op in ("append", "touch") else "") + ("" if op == "touch" else "new"), "the file of this name is written")
        only = ["/" + name]
    elif op == "mkdir":
        vfs.mkdir(q + "/made", parents=True)
        S.check(vfs.is_dir("/d/" + name + "/made"), "the directory is made below this name")
        only = ["/d/" + name, "/d/" + name + "/made"]
    elif op == "remove":
        ok, _ = S.attempt(vfs.remove, q, recursive=True)
        S.check(ok == present and not vfs.exists("/d/" + name), "exactly an existing name can be removed")
        only = [k for k in before if k == "/d/" + name or k.startswith("/d/" + name + "/")]
    elif op == "move":
        ok, _ = S.attempt(vfs.move, "/src", p)
        S.check(ok == (not present), "a name is free exactly when nothing has it")
        S.check(present or vfs.read_file("/" + name) == "src", "the file has the new name")
        only = ["/src", "/" + name] if ok else []
    elif op == "copy":
        vfs.copy("/src", p)
        S.check(vfs.read_file("/" + name) == "src", "the copy has this name")
        only = ["/" + name]
    elif op == "cd":
        ok, v = S.attempt(vfs.cd, q)
        S.check(ok == present and vfs.pwd() == ("/d/" + name if present else "/d"), "the directory of this name is entered")
        S.check(not ok or vfs.read_file("f") == "below " + name, "relative paths start there")
    elif op == "policy":
        ok, v = S.attempt(vfs.set_policy, q, S.sandfs.NodePolicy(classification="mark"))
        S.check(ok == present and (not ok or vfs.get_policy("/d/" + name).classification == "mark"), "the node of this name gets the policy")
        only = ["/d/" + name]
    elif op == "hook":
        got = []
        vfs.register_write_hook(q, lambda ev: got.append(ev.path))
        for n in group:
            vfs.write_file("/d/" + n + "/f", "x")
        S.check(got == ["/d/" + name + "/f"], "the hook covers the directory of this name")
        return
    elif op == "ls":
        ok, v = S.attempt(vfs.ls, q)
        S.check(ok == present and (not ok or [str(e.path) for e in v] == ["/d/" + name + "/sub", "/d/" + name + "/f"]), "the directory of this name is listed")
    elif op == "through":
        ok, v = S.attempt(vfs.read_file, q + "/./sub/../f")
        S.check(ok == present and (not ok or v == "below " + name), "a path leads through the directory of this name")
    elif op == "mount":
        vfs.mount_storage(q, S.mod("adapters").MemoryStorageAdapter({"z": "stored"}))
        S.check(vfs.read_file("/d/" + name + "/z") == "stored", "the storage is mounted at this name")
        only = [k for k in before if k == "/d/" + name or k.startswith("/d/" + name + "/")] + ["/d/" + name, "/d/" + name + "/z"]
    S.check(same(S, before, dump(vfs), only), "no other name is affected")


AGAIN = {"/f": "at /f", "/b/f": "at /b/f", "/a/f": "at /a/f", "/a/b/f": "at /a/b/f", "/c/f": "at /c/f", "/c/b/f": "at /c/b/f"}


def again(S, way):
    """The same spelling denotes another place once the working directory is another one (or elsewhere)."""
    vfs = S.sandfs.VirtualFileSystem()
    files = dict(AGAIN)
    for p in sorted(files):
        vfs.write_file(p, files[p])
    places = ["/", "/b", "/a", "/a/b", "/c/b"]
    cwd = S.choice("cwd", places)
    vfs.cd(cwd)
    p = ""
    for k in range(S.pick("segs", 3) + 1):
        p += ("/" if k else "") + S.choice("seg%d" % k, ["f", "b", ".."])
    probe(S, vfs, cwd, p, files)
    if way == "cd":
        cwd = S.choice("cwd2", places)
        vfs.cd(cwd)
    elif way == "cd node":
        vfs.cd("/")
        vfs.cd("a")
        vfs.cd("b")
        cwd = "/a/b"
    elif way == "restore":
        snap = vfs.snapshot()
        other = S.choice("cwd2", places)
        vfs.cd(other)
        probe(S, vfs, other, p, files)
        vfs.restore(snap)
    elif way == "move":
        vfs.cd(cwd)
        vfs.move("/a", "/z")
        files = {("/z" + k[2:] if k.startswith("/a/") else k): v for k, v in files.items()}
        if cwd.startswith("/a"):
            cwd = "/z" + cwd[2:]
        S.check(vfs.pwd() == cwd, "the working directory moves along")
    else:
        vfs.cd("/")
        vfs.remove("/a", recursive=True)
        vfs.write_file("/a/b/f", "new")
        files = {k: v for k, v in files.items() if not k.startswith("/a/")}
        files["/a/b/f"] = "new"
        vfs.cd(cwd)
    probe(S, vfs, cwd, p, files)
    sh = S.sandfs.SandboxShell(vfs)
    where = spec(cwd, p)
    S.check((sh.exec("cat " + p).stdout == files[where]) if where in files else sh.exec("cat " + p).exit_code != 0, "cat prints the denoted file")
    S.cover("hit" if where in files else "miss")
    if where in files:
        vfs.write_file(p, "changed")
        files[where] = "changed"
        S.check(S.eq(sorted((str(q), n.read(vfs)) for q, n in vfs.walk("/") if not hasattr(n, "children")), sorted(files.items())), "the denoted file is written, no other")


def probe(S, vfs, cwd, p, files):
    where = spec(cwd, p)
    isdir = where == "/" or any(k.startswith(where + "/") for k in files)
    S.check(vfs.exists(p) == (isdir or where in files) and vfs.is_dir(p) == isdir and vfs.is_file(p) == (where in files), "existence is that of the denoted location")
    ok, v = S.attempt(vfs.read_file, p)
    S.check(ok == (where in files) and (not ok or v == files[where]), "the file at the denoted location is read")
    if isdir:
        S.check(str(vfs.get_node(p).path()) == where and [str(e.path) for e in vfs.ls(p)] == [str(e.path) for e in vfs.ls(where)], "the denoted directory is listed")


def spec(cwd, s):
    parts = [] if s[:1] == "/" else [x for x in cwd.split("/") if x]
    for seg in s.split("/"):
        if seg == "" or seg == ".":
            continue
        if seg == "..":
            if parts:
                parts.pop()
            continue
        parts.append(seg)
    return "/" + "/".join(parts)


FILES = {"/b": "at /b", "/a/a": "at /a/a", "/a/b/b": "at /a/b/b"}
DIRS = ["/", "/a", "/a/b"]


def build(S):
    vfs = S.sandfs.VirtualFileSystem()
    vfs.mkdir("/a/b", parents=True)
    for p, t in FILES.items():
        vfs.write_file(p, t)
    return vfs


def run(S, op, cwd, n):
    if op == "again":
        return again(S, cwd)
    if op == "names":
        return names(S, cwd)
    vfs = build(S)
    vfs.cd(cwd)
    if n > 0:
        p = S.str("path", 1, n, alphabet="/.ab")
    else:
        p = "/" if S.flag("absolute") else ""
        for k in range(-n):
            p += ("/" if k else "") + S.choice("seg%d" % k, ["a", "b", "..", "."])
    where = spec(cwd, p)
    before = dump(vfs)
    isdir = where in DIRS
    isfile = where in FILES
    S.cover("hit" if isdir or isfile else "miss")
    only = []          # paths that may differ afterwards
    if op == "read":
        ok, v = S.attempt(vfs.read_file, p)
        S.check(ok == isfile, "a spelling can be read exactly when it denotes a file")
        if ok:
            S.check(v == FILES[where], "the file at the denoted location is read")
    elif op == "cat":
        sh = S.sandfs.SandboxShell(vfs)
        r = sh.exec("cat '" + p + "'")
        S.check((r.exit_code == 0) == isfile, "cat succeeds exactly when the path denotes a file")
        if isfile:
            S.check(r.stdout == FILES[where], "cat prints the denoted file")
    elif op == "shell_cd":
        sh = S.sandfs.SandboxShell(vfs)
        r = sh.exec("cd '" + p + "'")
        S.check((r.exit_code == 0) == isdir, "cd succeeds exactly when the path denotes a directory")
        S.check(vfs.pwd() == (where if isdir else cwd), "cd ends up at the denoted directory")
    elif op == "redirect":
        sh = S.sandfs.SandboxShell(vfs)
        r = sh.exec("echo -n new > '" + p + "'")
        if r.exit_code == 0:
            only = lineage(where)
            S.check(vfs.read_file(where) == "new", "a redirection writes the denoted file")
    elif op == "exists":
        S.check(vfs.exists(p) == (isdir or isfile), "existence is that of the denoted location")
        S.check(vfs.is_dir(p) == isdir, "is_dir is that of the denoted location")
        S.check(vfs.is_file(p) == isfile, "is_file is that of the denoted location")
    elif op == "pureposix":
        q = S.pathlib.PurePosixPath(p)
        ok, v = S.attempt(vfs.get_node, q)
        S.check(ok == (isdir or isfile), "path objects resolve like strings")
        if ok:
            S.check(str(v.path()) == where, "path objects reach the denoted node")
            S.check(vfs.get_node(p) is v, "both spellings reach the same node")
    elif op in ("write", "append", "touch"):
        if op == "touch":
            ok, node = S.attempt(vfs.touch, p)
        elif op == "append":
            ok, node = S.attempt(vfs.append_file, p, "new")
        else:
            ok, node = S.attempt(vfs.write_file, p, "new")
        S.check(ok == (not isdir and creatable(where)), "writable exactly when it can denote a file")
        if ok:
            S.check(str(node.path()) == where, "the denoted location is written")
            only = lineage(where)
            if op == "write":
                S.check(vfs.read_file(where) == "new", "the text is found at the denoted location")
    elif op == "mkdir":
        ok, node = S.attempt(vfs.mkdir, p, parents=True, exist_ok=True)
        S.check(ok == (not isfile and creatable(where)), "creatable exactly when it can denote a directory")
        if ok:
            S.check(str(node.path()) == where, "the denoted directory is returned")
            S.check(vfs.is_dir(where), "the denoted directory exists")
            only = lineage(where)
    elif op == "cd":
        ok, v = S.attempt(vfs.cd, p)
        S.check(ok == isdir, "exactly directories can be entered")
        S.check(vfs.pwd() == (where if isdir else cwd), "the working directory is the denoted one")
        if ok:
            S.check(v == where, "the entered directory is reported")
            S.check(vfs.read_file("b") == FILES[where + "/b" if where != "/" else "/b"] if where != "/a" else True,
                    "relative paths start from the entered directory")
    elif op == "ls":
        ok, v = S.attempt(vfs.ls, p)
        S.check(ok == isdir, "exactly directories can be listed")
        if ok:
            S.check([str(e.path) for e in v] == [str(e.path) for e in vfs.ls(where)], "the denoted directory is listed")
    elif op == "iter":
        ok, v = S.attempt(lambda: [str(q) for q, _ in vfs.iter_files(p)])
        S.check(ok == (isdir or isfile), "exactly existing locations can be iterated")
        if ok:
            S.check(sorted(v) == sorted(f for f in FILES if f == where or f.startswith("/" if where == "/" else where + "/")), "files below the denoted location")
    elif op == "tree":
        ok, v = S.attempt(vfs.tree, p)
        S.check(ok == isdir, "exactly directories can be rendered")
        if ok:
            S.check(v == vfs.tree(where), "the denoted directory is rendered")
    elif op == "remove":
        ok, v = S.attempt(vfs.remove, p, recursive=True)
        S.check(ok == ((isfile or isdir) and where != "/"), "exactly existing non-root locations can be removed")
        if ok:
            S.check(not vfs.exists(where), "the denoted location is gone")
            only = [k for k in before if k == where or k.startswith(where + "/")]
    elif op == "move_to":
        ok, v = S.attempt(vfs.move, "/b", p)
        if ok and where != "/b":
            dest = (where if where != "/" else "") + "/b" if isdir else where
            S.check(vfs.read_file(dest) == FILES["/b"], "moved to the denoted location")
            only = ["/b", dest]
        elif ok:
            only = []
    elif op == "copy_to":
        ok, v = S.attempt(vfs.copy, "/a/a", p)
        if ok:
            dest = (where if where != "/" else "") + "/a" if isdir else where
            S.check(vfs.read_file(dest) == FILES["/a/a"], "copied to the denoted location")
            only = [dest]
    elif op == "move_from":
        ok, v = S.attempt(vfs.move, p, "/c")
        S.check(ok == ((isfile or isdir) and where != "/"), "exactly existing non-root locations can be moved")
        if ok:
            S.check(vfs.exists("/c") and not vfs.exists(where), "the denoted node moved")
            only = [k for k in before if k == where or k.startswith(where + "/")]
            only = only + ["/c" + k[len(where):] for k in only]
    elif op == "version":
        ok, v = S.attempt(vfs.get_version, p)
        S.check(ok == isfile, "exactly files have versions")
    elif op == "policy":
        mark = S.sandfs.NodePolicy(classification="mark")
        ok, v = S.attempt(vfs.set_policy, p, mark)
        S.check(ok == (isfile or isdir), "exactly existing locations have policies")
        if ok:
            S.check(vfs.get_policy(where).classification == "mark", "the denoted node carries the policy")
            only = [where]
    elif op == "hookprefix":
        got = []
        vfs.register_write_hook(p, lambda ev: got.append(ev.path))
        for f in FILES:
            vfs.write_file(f, FILES[f])
        want = [f for f in FILES if f == where or f.startswith("/" if where == "/" else where + "/")]
        S.check(got == want, "a hook covers exactly the denoted subtree")
        only = list(before)
    elif op == "mount":
        ad = S.sandfs.MemoryStorageAdapter if hasattr(S.sandfs, "MemoryStorageAdapter") else S.mod("adapters").MemoryStorageAdapter
        ok, d = S.attempt(vfs.mount_storage, p, ad({"z": "stored"}))
        S.check(ok == (not isfile and creatable(where)), "mountable exactly where a directory can be")
        if ok:
            S.check(vfs.read_file((where if where != "/" else "") + "/z") == "stored", "mounted at the denoted location")
            only = lineage(where) + [(where if where != "/" else "") + "/z"] + [k for k in before if where == "/" or k.startswith(where + "/")]
    if op not in ("hookprefix",):
        S.check(same(S, before, dump(vfs), only), "no other location changed")


def creatable(where):
    return not any(where.startswith(f + "/") for f in FILES)


def lineage(where):
    """The location and the missing directories above it."""
    out = []
    while where != "/":
        if where not in DIRS:
            out.append(where)
        where = where[:where.rfind("/")] or "/"
    return out
