from props.lib import under

BOUNDS = ("histories of 2 (thorough: 3) operations among write, append, conditional write, touch, mkdir, remove, recursive remove (API and shell) on 6 "
          "paths, with up to 3 write hooks and 3 path hooks registered at prefixes chosen among 8 spellings; or one hook registered three times at any of 4 prefixes; texts are arbitrary "
          "single characters")
BUDGET = {"quick": 240, "thorough": 700}
COVERS = ("write:ok", "append:ok", "remove:ok", "cas:no")

OPS = ["write", "append", "cas", "touch", "mkdir", "remove", "rmr", "shellwrite", "shellappend", "redirect", "shellrm"]
PATHS = ["/a", "/a/f", "/a/b/f", "/ab", "/c"]
PREFIXES = {"/": "/", "/a": "/a", "/a/b": "/a/b", "/a/": "/a", "a/b": "/a/b", "/ab": "/ab", "/a/f": "/a/f", "/a/./b/../f": "/a/f", "/none": "/none"}


def cases(tier):
    out = []
    for a in OPS:
        for b in OPS if tier == "thorough" else ("write", "append", "remove", "rmr", "cas"):
            out.append((f"{a}-{b}", {"ops": [a, b], "hooks": "fixed"}))
        out.append((f"prefix-{a}", {"ops": [a], "hooks": "any"}))
        out.append((f"same-{a}", {"ops": [a], "hooks": "same"}))
    out.append(("inbox", {"ops": ["write", "rmr"], "hooks": "inbox"}))
    return out


def run(S, ops, hooks):
    vfs = S.sandfs.VirtualFileSystem()
    base = S.str("base", 1, 1)
    vfs.write_file("/a/f", base)
    vfs.write_file("/a/b/f", "deep")
    written = {"/a/f": base, "/a/b/f": "deep"}
    got = []      # (hook number, kind, payload...)
    if hooks == "any":
        names = [S.choice("prefix0", list(PREFIXES)), S.choice("prefix1", ["/", "/a", "/a/b"])]
    else:
        names = ["/", "/a", "/ab", "/a"]
    regs = []
    box = None
    if hooks == "inbox":
        box = S.mod("integrations").InboxRecorder()
        box.attach(vfs, "/a")
    if hooks == "same":
        return shared(S, vfs, ops[0], written)
    for i, spelled in enumerate(names):
        regs.append(PREFIXES[spelled])
        vfs.register_write_hook(spelled, writer(vfs, got, i))
        vfs.register_path_hook(spelled, pather(vfs, got, i))
    shell = S.sandfs.SandboxShell(vfs)
    inbox_want = []
    for k, op in enumerate(ops):
        del got[:]
        p = S.choice("p%d" % k, PATHS)
        t = S.str("t%d" % k, 1, 1) if not op.startswith("shell") and op != "redirect" else "w"
        existed = vfs.is_file(p)
        files = [str(q) for q, n in vfs.walk("/") if not hasattr(n, "children")]
        old = written.get(p, "")
        if op == "write":
            ok, _ = S.attempt(vfs.write_file, p, t)
        elif op == "append":
            ok, _ = S.attempt(vfs.append_file, p, t)
        elif op == "cas":
            e = S.int("e%d" % k, 0, 3)
            ok, _ = S.attempt(vfs.write_file, p, t, expected_version=e)
        elif op == "touch":
            ok, _ = S.attempt(vfs.touch, p)
        elif op == "mkdir":
            ok, _ = S.attempt(vfs.mkdir, p, parents=True, exist_ok=True)
        elif op in ("remove", "rmr"):
            ok, _ = S.attempt(vfs.remove, p, recursive=op == "rmr")
        else:
            cmd = {"shellwrite": "write {p} w", "shellappend": "append {p} w", "redirect": "echo -n w >> {p}", "shellrm": "rm -r {p}"}[op]
            ok = shell.exec(cmd.replace("{p}", p)).exit_code == 0
        kind = {"cas": "write", "shellwrite": "write", "shellappend": "append", "redirect": "append", "shellrm": "remove", "rmr": "remove"}.get(op, op)
        S.cover((op if op == "cas" else kind) + (":ok" if ok else ":no"))
        want_w, want_p = [], []
        if ok and kind in ("write", "append"):
            text = old + t if kind == "append" else t
            ver = vfs.get_version(p)
            first = p not in written
            written[p] = text
            want_w = [(p, text, ver, kind == "append")]
            want_p = [(p, "create" if first else "update", text)]
        elif ok and kind == "remove":
            gone = [f for f in files if under(f, p)]
            for f in gone:
                written.pop(f, None)
            want_p = [(f, "delete", None) for f in gone]
        for i, prefix in enumerate(regs):
            mine_w = [g[2:6] for g in got if g[0] == i and g[1] == "w"]
            mine_p = [g[2:5] for g in got if g[0] == i and g[1] == "p"]
            S.check(S.eq(mine_w, [w for w in want_w if under(w[0], prefix)]),
                    "a write hook sees each successful write below its prefix exactly once, with path, resulting text, version and mode")
            S.check(S.eq(sorted(mine_p), sorted(x for x in want_p if under(x[0], prefix))),
                    "a path hook sees each creation, update and removal of a file below its prefix exactly once")
        for g in got:
            if g[1] == "w":
                S.check(g[6] == g[3], "when a hook runs the file already holds the reported text")
            elif g[3] == "delete":
                S.check(g[5] is None, "when a removal is reported the file is gone")
        inbox_want += [x for x in want_p if under(x[0], "/a")]
        if box is not None:
            S.check(S.eq(sorted((e["path"], e["event"], e["content"] or "") for e in box.events),
                         sorted((a, b, c or "") for a, b, c in inbox_want)), "the inbox records the same events")


def shared(S, vfs, op, written):
    """One callable may be registered several times: it is called once for each registration that covers the file."""
    calls = []

    def hook(ev):
        calls.append(ev.path)
    regs = [S.choice("r%d" % i, ["/", "/a", "/a/b", "/none"]) for i in range(3)]
    kind = S.choice("kind", ["write", "path"])
    for r in regs:
        (vfs.register_write_hook if kind == "write" else vfs.register_path_hook)(r, hook)
    p = S.choice("p", ["/a/f", "/a/b/f", "/c"])
    sh = S.sandfs.SandboxShell(vfs)
    existed = vfs.exists(p)
    if op in ("write", "append"):
        (vfs.write_file if op == "write" else vfs.append_file)(p, "t")
    elif op in ("shellwrite", "shellappend", "redirect"):
        sh.exec({"shellwrite": "write {p} w", "shellappend": "append {p} w", "redirect": "echo -n w >> {p}"}[op].replace("{p}", p))
    elif op in ("remove", "rmr", "shellrm"):
        if not existed:
            return
        vfs.remove(p, recursive=op == "rmr") if op != "shellrm" else sh.exec("rm " + p)
    else:
        return
    gone = op in ("remove", "rmr", "shellrm")
    want = 0 if gone and kind == "write" else sum(under(p, r) for r in regs)
    S.check(calls == [p] * want, "a hook is called once for each of its registrations")


def writer(vfs, got, i):
    def hook(ev):
        got.append((i, "w", ev.path, ev.content, ev.version, ev.append, vfs.read_file(ev.path)))
    return hook


def pather(vfs, got, i):
    def hook(ev):
        got.append((i, "p", ev.path, ev.event, ev.content, vfs.read_file(ev.path) if vfs.exists(ev.path) else None))
    return hook
