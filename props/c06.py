from props.lib import do_op, dump, under

BOUNDS = ("any 2 (thorough: 3) operations among write, append, versioned write, touch, mkdir, remove, move, copy, or one shell "
          "command, on 9 paths around one read-only node (file, directory, or nested directory) whose other policy bits and "
          "whose neighbours' policy bits are arbitrary; texts are arbitrary single characters")
BUDGET = {"quick": 240, "thorough": 700}
COVERS = ("ok", "refused")

OPS = ["write", "append", "cas", "touch", "mkdir", "remove", "move", "copy"]
PATHS = ["/a", "/a/d", "/a/d/f", "/a/d/n", "/a/d/s", "/a/d/s/k", "/o", "/d"]

FIRST = ["/a", "/a/d", "/a/d/f", "/o", "/d", "/a/d/n"]
SECOND = ["/a/d/f", "/a", "/d/d/f", "/d/f", "/d/a"]


def cases(tier):
    out = []
    for ro in ("/a/d/f", "/a/d", "/a/d/s", "/"):
        for op in OPS:
            out.append((f"{ro} {op}", {"ro": ro, "ops": [op], "bits": True}))
        for op in ("mkdir", "move", "copy"):
            for op2 in ("write", "remove", "copy", "move", "touch"):
                if tier == "thorough" or (ro in ("/a/d/f", "/a/d") and op != "mkdir" and (op, op2) != ("copy", "copy")):
                    out.append((f"{ro} {op}-{op2}", {"ro": ro, "ops": [op, op2], "bits": False}))
        out.append((f"{ro} shell", {"ro": ro, "ops": ["shell"], "bits": False}))
    return out


def build(S, ro, bits):
    vfs = S.sandfs.VirtualFileSystem()
    vfs.write_file("/a/d/f", "precious")
    vfs.write_file("/a/d/s/k", "kept")
    vfs.write_file("/o", "other")
    vfs.mkdir("/d")
    P = S.sandfs.NodePolicy
    if bits:
        for n in ("/a", "/a/d", "/a/d/f"):
            if n != ro:
                t = n.replace("/", "_")
                vfs.set_policy(n, P(writable=S.bool("w" + t), append_only=S.bool("ao" + t)))
    vfs.set_policy(ro, P(readable=True, writable=False, append_only=S.bool("ao") if bits else False))
    return vfs


COMMANDS = ["write {p} x", "append {p} x", "echo x > {p}", "echo x >> {p}", "write {p} --append x", "touch {p}", "mkdir {p}",
            "mkdir -p {p}/q", "rm {p}", "rm -r {p}", "mv {p} /d/z", "mv /o {p}", "cp /o {p}", "cp -r /a/d/s {p}", "mv {p} /a/d/n",
            "cp /o {p}/o", "python3 \"vfs.write_file('{p}', 'x')\"", "python3 \"vfs.remove('{p}', recursive=True)\""]


def run(S, ro, ops, bits):
    vfs = build(S, ro, bits)
    node = vfs.get_node(ro)
    isfile = ro == "/a/d/f"
    home = node.parent
    before = dump(vfs, times=True)
    names = None if isfile else sorted(node.children)
    kids = None if isfile else [node.children[n] for n in names]
    for i, op in enumerate(ops):
        if op == "shell":
            cmd = S.choice("cmd", COMMANDS).replace("{p}", S.choice("p", PATHS))
            r = S.sandfs.SandboxShell(vfs).exec(cmd)
            ok = r.exit_code == 0
        else:
            paths = PATHS if len(ops) == 1 or S.thorough else (FIRST if i == 0 else SECOND)
            ok = do_op(S, vfs, op, "o%d" % i, paths, text="x" if len(ops) > 1 else None)["ok"]
        S.cover("ok" if ok else "refused")
        where = find(vfs, node)
        S.check(where is not None, "a read-only node is never removed or replaced")
        row = dump(vfs, times=True)[where]
        if isfile:
            S.check(S.eq(row, before[ro]), "a read-only file keeps its text, version and times")
            S.check(vfs.read_file(where) == "precious", "a read-only file still reads as before")
        else:
            S.check(sorted(node.children) == names, "nothing is added to, removed from or renamed in a read-only directory")
            S.check(all(node.children[n] is k for n, k in zip(names, kids)), "no entry of a read-only directory is replaced")
        S.check(node.policy.writable is False, "the policy itself stays")
        if ro != "/":
            S.check(node.name == ro[ro.rfind("/") + 1:], "a read-only node is not renamed")
            S.check(node.parent is home, "a read-only node stays in the directory it was in")


def find(vfs, node):
    for path, n in vfs.walk("/"):
        if n is node:
            return str(path)
    return None
