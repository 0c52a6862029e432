from props.lib import Ref, do_op, dump, parent_of, same, tree_ok

BOUNDS = ("histories of up to 3 (thorough: 4) operations among write, append, touch, mkdir (with both flags), remove, "
          "over 7 paths of up to 3 levels where files and directories can collide; texts are arbitrary strings "
          "(any Unicode scalar values) of up to 3 characters in total; also the same through the shell commands write, append, "
          "touch, mkdir, rm and redirections; names of up to 2 characters over 9 unusual ones (blanks, line feeds, backslashes, wildcards, combining marks)")
BUDGET = {"quick": 200, "thorough": 700}
COVERS = ("write:ok", "append:ok", "touch:ok", "mkdir:ok", "remove:ok", "remove:no", "write:no", "mkdir:no")

PATHS = ["/a", "/a/b", "/a/b/c", "/d", "/d/b"]
OPS = ["write", "append", "touch", "mkdir", "remove"]


def cases(tier):
    out = []
    for a in OPS:
        for b in OPS:
            if tier == "thorough":
                for c in OPS:
                    out.append((f"{a}-{b}-{c}", {"ops": [a, b, c], "shell": False}))
            else:
                out.append((f"{a}-{b}", {"ops": [a, b], "shell": False}))
    for c in ("remove", "write", "append", "touch", "mkdir"):
        out.append((f"shell-{c}", {"ops": [c], "shell": True}))
        out.append((f"shell2-{c}", {"ops": [c, "append"], "shell": True}))
    out.append(("write-append-append", {"ops": ["write", "append", "append"], "shell": False, "paths": ["/a/b", "/d"]}))
    out.append(("write-append-write", {"ops": ["write", "append", "write"], "shell": False, "paths": ["/a/b", "/d"]}))
    out.append(("write-remove-append", {"ops": ["write", "remove", "append"], "shell": False, "paths": ["/a/b", "/a"]}))
    out.append(("write-remove-write", {"ops": ["write", "remove", "write"], "shell": False, "paths": ["/a/b", "/a"]}))
    for kind in ("file", "dir", "sub"):
        out.append((f"names {kind}", {"ops": [kind], "shell": None}))
    return out


def names(S, kind):
    """A name is any string without a slash, and names are compared exactly."""
    vfs = S.sandfs.VirtualFileSystem()
    letters = "a \n\t\\*\u0301\x0b~"
    n = S.str("n", 1, 2, alphabet=letters)
    m = S.str("m", 1, 2 if S.thorough else 1, alphabet=letters)
    base = "/s/" if kind == "sub" else "/"
    if kind == "dir":
        vfs.mkdir(base + n)
    else:
        vfs.write_file(base + n, "x")
    alike = n == m
    S.check(vfs.exists(base + m) == alike, "a name is compared exactly")
    S.check([e.name for e in vfs.ls(base)] == [n] and vfs.ls(base)[0].path == S.pathlib.PurePosixPath(base + n), "and kept as given")
    vfs.write_file(base + m + "/g" if kind == "dir" else base + m, "y")
    S.check(len(vfs.ls(base)) == (1 if alike else 2), "equal names are one node, different names two")
    if kind == "dir":
        S.check(vfs.read_file(base + m + "/g") == "y" and vfs.is_dir(base + n) and vfs.exists(base + n + "/g") == alike, "each with its own children")
    else:
        S.check(vfs.read_file(base + m) == "y" and vfs.read_file(base + n) == ("y" if alike else "x"), "each with its own content")
    vfs.remove(base + n, recursive=True)
    S.check(not vfs.exists(base + n) and vfs.exists(base + m) != alike, "removing one leaves the other")
    tree_ok(S, vfs)
    S.cover("write:ok")


def model(ref, ver, a):
    """What the operation should do: True if it should succeed; updates ref and versions."""
    op, p = a["op"], a["p"]
    if op in ("write", "append", "touch"):
        if ref.isdir(p) or not ref.creatable(p):
            return False
        new = p not in ref.n
        ref.mkparents(p)
        old = ref.n.get(p, "")
        if op == "touch":
            ref.n[p] = old
            if new:
                ver[p] = 0
        else:
            ref.n[p] = (old if op == "append" else "") + a["t"]
            ver[p] = ver.get(p, 0) + 1 if not new else 1
        return True
    if op == "mkdir":
        if p in ref.n:
            return ref.isdir(p) and a["exist_ok"]
        if not ref.creatable(p):
            return False
        if not a["parents"] and not ref.isdir(parent_of(p)):
            return False
        ref.mkparents(p)
        ref.n[p] = None
        return True
    if op == "remove":
        if p not in ref.n:
            return False
        if ref.isdir(p) and ref.children(p) and not a["recursive"]:
            return False
        ref.drop(p)
        return True


def shell_op(S, sh, op, tag, paths):
    p = S.choice(tag + ".p", paths)
    a = {"op": op, "p": p}
    if op in ("write", "append"):
        t = S.str(tag + ".t", 1, 1, alphabet="xy")
        redirect = S.flag(tag + ".redirect")
        a["t"] = t
        if redirect:
            r = sh.exec("echo -n " + t + (" >> " if op == "append" else " > ") + p)
        elif op == "append" and S.flag(tag + ".long"):
            r = sh.exec("write " + p + " --append --text " + t)
        else:
            r = sh.exec(op + " " + p + " " + t)
    elif op == "touch":
        r = sh.exec("touch " + p)
    elif op == "mkdir":
        par = S.flag(tag + ".par")
        a.update(parents=par, exist_ok=par)
        r = sh.exec("mkdir " + ("-p " if par else "") + p)
    else:
        rec = S.flag(tag + ".rec")
        a["recursive"] = rec
        r = sh.exec("rm " + ("-r " if rec else "") + p)
    a["ok"] = r.exit_code == 0
    return a


def run(S, ops, shell, paths=PATHS):
    if shell is None:
        return names(S, ops[0])
    vfs = S.sandfs.VirtualFileSystem()
    ref, ver = Ref(), {}
    base = S.str("base", 0, 2) if S.thorough else S.str("base", 2, 2)
    vfs.write_file("/a/b", base)
    ref.n["/a"] = None
    ref.n["/a/b"] = base
    ver["/a/b"] = 1
    vfs.get_node("/a/b").metadata["tag"] = "kept"
    vfs.set_policy("/a/b", S.sandfs.NodePolicy(classification="mark"))
    vfs.mkdir("/e")
    ref.n["/e"] = None
    sh = S.sandfs.SandboxShell(vfs)
    for i, op in enumerate(ops):
        tag = "o%d" % i
        before = dump(vfs)
        if shell:
            a = shell_op(S, sh, op, tag, paths)
        else:
            a = do_op(S, vfs, op, tag, paths)
        should = model(ref, ver, a)
        S.cover(op + (":ok" if a["ok"] else ":no"))
        S.check(a["ok"] == should, "the operation succeeds exactly when it makes sense")
        after = dump(vfs)
        S.check(sorted(after) == sorted(ref.n), "exactly the expected files and directories exist")
        for q in ref.n:
            kind, text, version, policy, meta = after[q]
            S.check(kind == ("d" if ref.isdir(q) else "f"), "each node has the expected kind")
            if kind == "f":
                S.check(text == ref.n[q], "each file holds what was written and appended")
                S.check(vfs.read_file(q) == ref.n[q], "reading returns it")
                S.check(vfs.exists(q) and vfs.is_file(q) and not vfs.is_dir(q), "a file is a file")
            else:
                S.check(vfs.exists(q) and vfs.is_dir(q) and not vfs.is_file(q), "a directory is a directory")
            if q != a["p"] and q in before:
                S.check(S.eq(after[q], before[q]), "other paths keep content, version, policy and metadata")
            elif q == a["p"] and q in before:
                S.check(S.eq(after[q][3:], before[q][3:]), "an existing path keeps its policy and metadata")
    tree_ok(S, vfs)
