from props.lib import do_op, dump

BOUNDS = ("any 2 (thorough: 3) operations (first one arbitrary, API; or any one of 20 shell commands) around one append-only node "
          "(file or directory), whose initial text is an arbitrary string of up to 1 character (written, provided, provided over an older text, lazily provided or stored) and whose neighbours have arbitrary "
          "writable/append-only bits; appended texts are arbitrary single characters")
BUDGET = {"quick": 240, "thorough": 700}
COVERS = ("ok", "refused", "grew")

OPS = ["write", "append", "cas", "touch", "mkdir", "remove", "move", "copy"]
PATHS = ["/a", "/a/d", "/a/d/f", "/a/d/n", "/a/d/s", "/o", "/d"]
FIRST = ["/a", "/a/d", "/a/d/f", "/o"]


def cases(tier):
    out = []
    for ao in ("/a/d/f", "/a/d"):
        for op in OPS:
            out.append((f"{ao} {op}", {"ao": ao, "ops": [op], "bits": True}))
            for op2 in OPS:
                if tier == "thorough" or (op in ("append", "move", "copy") and op2 in ("append", "write", "remove", "move")):
                    out.append((f"{ao} {op}-{op2}", {"ao": ao, "ops": [op, op2], "bits": False}))
        out.append((f"{ao} shell", {"ao": ao, "ops": ["shell"], "bits": False}))
        out.append((f"{ao} shell2", {"ao": ao, "ops": ["append", "shell"], "bits": False}))
    return out


COMMANDS = ["write {p} x", "append {p} x", "echo x > {p}", "echo x >> {p}", "write {p} --append x", "touch {p}", "mkdir {p}",
            "mkdir -p {p}/q", "rm {p}", "rm -r {p}", "rm -rf {p}", "mv {p} /d/z", "mv /o {p}", "cp /o {p}", "cp -r /a/d/s {p}",
            "mv {p} /a/d/n", "cp /o {p}/o", "cat /o > {p}", "python3 \"vfs.write_file('{p}', 'x')\"",
            "python3 \"vfs.remove('{p}', recursive=True)\""]


def run(S, ao, ops, bits):
    vfs = S.sandfs.VirtualFileSystem()
    init = S.str("init", 0, 1)
    made = S.choice("made", ["written", "provided", "mounted", "lazy", "stored"]) if len(ops) == 1 and ao == "/a/d/f" else "written"
    if made == "written":
        vfs.write_file("/a/d/f", init)
    elif made == "provided":
        vfs.mkdir("/a/d", parents=True)
        vfs.mount_file("/a/d/f", lambda ctx: init)
    elif made == "mounted":
        vfs.write_file("/a/d/f", "o")
        vfs.mount_file("/a/d/f", lambda ctx: init)
    elif made == "lazy":
        vfs.mount_directory("/a/d", lambda ctx: {"f": S.sandfs.ProvidedNode.file(content_provider=lambda c: init)})
        vfs.exists("/a/d/f")
    else:
        vfs.mount_storage("/a/d", S.mod("adapters").MemoryStorageAdapter({"f": init}))
    vfs.write_file("/a/d/s/k", "kept")
    vfs.write_file("/o", "other")
    vfs.mkdir("/d")
    P = S.sandfs.NodePolicy
    if bits:
        for n in ("/a", "/a/d", "/a/d/f"):
            if n != ao:
                t = n.replace("/", "_")
                vfs.set_policy(n, P(writable=S.bool("w" + t), append_only=S.bool("ao" + t)))
    vfs.set_policy(ao, P(append_only=True, writable=S.bool("writable") if bits else True))
    node = vfs.get_node(ao)
    isfile = ao == "/a/d/f"
    home, name = node.parent, node.name
    for i, op in enumerate(ops):
        old = node.read(vfs) if isfile else dict(node.children)
        ver = node.version
        if op == "shell":
            cmd = S.choice("cmd", COMMANDS).replace("{p}", S.choice("p", PATHS))
            ok = S.sandfs.SandboxShell(vfs).exec(cmd).exit_code == 0
            a = {"op": "shell"}
        else:
            paths = PATHS if len(ops) == 1 or i else FIRST
            a = do_op(S, vfs, op, "o%d" % i, paths)
            ok = a["ok"]
        S.cover("ok" if ok else "refused")
        S.check(any(n is node for _, n in vfs.walk("/")), "an append-only node is never removed or replaced")
        S.check(node.parent is home and node.name == name, "an append-only node is never moved or renamed")
        S.check(node.policy.append_only is True, "it stays append-only")
        if isfile:
            new = node.read(vfs)
            S.check(new[:len(old)] == old, "the text of an append-only file only grows")
            S.check(node.version >= ver, "its version never goes back")
            if len(new) > len(old):
                S.cover("grew")
            if a["op"] == "append" and a["p"] == str(node.path()) and ok:
                S.check(new == old + a["t"], "an append adds exactly the given text at the end")
            elif a["op"] == "append" and a["p"] == str(node.path()) and not bits:
                S.check(False, "appending to an append-only file is allowed")
        else:
            for n, child in old.items():
                S.check(n in node.children and node.children[n] is child,
                        "no entry of an append-only directory is removed, renamed or replaced")
