from props.lib import under

BOUNDS = ("one unreadable file (arbitrary 2-character text over 4 letters and newline) and one unreadable directory (arbitrary "
          "1-letter child name) in a small tree; every reading operation of the API and 40 shell command lines, optionally after one "
          "of 12 preparatory operations (copying, moving, appending, indexing, changing the working directory); two runs "
          "differing only in the unreadable text must give identical outputs")
ASSUMPTIONS = ["the size shown by stat and Python snippets that read nodes directly are out of scope"]
BUDGET = {"quick": 200, "thorough": 700}
COVERS = ("ok", "refused")

READERS = ["cat {f}", "cat /d/*", "head {f}", "head -c 1 {f}", "tail {f}", "tail -n 1 {f}", "wc {f}", "wc -c {f}", "wc -l {f}",
           "cat < {f}", "grep x {f}", "grep -r x /", "grep x /d", "grep -i x {f}", "grep -r -i X /d", "grep -r -e 'x|y' /", "rg x",
           "rg x /d", "rg -n x {f}", "rg -e x. {f}", "search x /", "search x {f}", "search -i X /d", "search -e x$ /d", "find {f}",
           "find / -name f", "tree /", "ls {f}", "ls -l {f}", "ls /d", "ls -l /d", "stat {f}", "cat /o {f}",
           "cat '/@search?q=x'/d/f", "ls '/@search?q=x'", "tree '/@search?q=x'", "grep -r x '/@search?q=x'",
           "cat /e/f", "cat /e/d/f", "cat /g", "cat < /g", "grep -r x /e", "rg x /g", "python3 \"print(vfs.read_file('{f}'))\"",
           "python3 \"print([str(p) for p, n in vfs.iter_files('/')])\""]
PREPS = ["", "cp {f} /g", "mv {f} /g", "cp -r /d /e", "mv /d /e", "append {f} more", "write /g x", "cd /d", "touch {f}", "cp /g {f}",
         "cat {f} > /g", "mv /o /d/o2"]


def cases(tier):
    out = []
    for i, prep in enumerate(PREPS):
        for index in (False, True):
            out.append((f"file prep{i} index={index}", {"kind": "file", "prep": i, "index": index, "lo": 0, "hi": len(READERS)}))
    for index in (False, True):
        out.append((f"api index={index}", {"kind": "api", "prep": 0, "index": index}))
        out.append((f"dir index={index}", {"kind": "dir", "prep": 0, "index": index}))
    return out


def build(S, text, index):
    vfs = S.sandfs.VirtualFileSystem()
    vfs.write_file("/d/f", text)
    vfs.write_file("/d/v", "visible x\n")
    vfs.write_file("/o", "other x\ny\n")
    vfs.set_policy("/d/f", S.sandfs.NodePolicy(readable=False))
    vfs.enable_search_view()
    if index:
        vfs.enable_full_text_index()
    return vfs


def still(vfs):
    for _, n in vfs.walk("/"):
        n.created_at = n.modified_at = 0.0


def run(S, kind, prep, index, lo=0, hi=0):
    if kind == "dir":
        return directory(S, index)
    texts = [S.str("text%d" % i, 2, 2, alphabet="xXy\n") for i in (1, 2)]
    outs = []
    if kind == "file":
        cmd = S.choice("reader", READERS[lo:hi]).replace("{f}", "/d/f")
        first = PREPS[prep].replace("{f}", "/d/f")
        for t in texts:
            vfs = build(S, t, index)
            sh = S.sandfs.SandboxShell(vfs)
            res = []
            if first:
                r = sh.exec(first)
                res.append((r.exit_code, r.stdout, r.stderr))
            still(vfs)
            r = sh.exec(cmd)
            res.append((r.exit_code, r.stdout, r.stderr))
            outs.append(res)
        S.cover("ok" if r.exit_code == 0 else "refused")
        S.check(S.eq(outs[0], outs[1]), "no output depends on the text of an unreadable file")
        return
    Q = S.mod("search").SearchQuery
    q = S.str("q", 1, 1, alphabet="xyX")
    ignore = S.flag("ignore")
    regex = S.flag("regex")
    what = S.choice("what", ["read_file", "search", "search_file", "iter", "tree", "glob", "ls", "copy", "recopy"])
    for t in texts:
        vfs = build(S, t, index)
        prefix = S.pathlib.PurePosixPath("/d/f" if what == "search_file" else "/")
        if what == "read_file":
            ok, v = S.attempt(vfs.read_file, "/d/f")
            S.check(not ok, "an unreadable file cannot be read")
            outs.append(str(v))
        elif what in ("search", "search_file"):
            ok, v = S.attempt(vfs.search, Q(query=q, regex=regex, ignore_case=ignore, path_prefix=prefix))
            outs.append([(str(r.path), r.line_no, r.line_text) for r in v] if ok else str(v))
            if ok:
                S.check(all(str(r.path) != "/d/f" for r in v), "searching never reports an unreadable file")
        elif what == "iter":
            outs.append([(str(p), n.read(vfs)) for p, n in vfs.iter_files("/")])
        elif what == "tree":
            outs.append(vfs.tree("/"))
        elif what == "glob":
            outs.append(vfs.glob("/d/*"))
        elif what == "ls":
            outs.append([(e.name, e.is_dir) for e in vfs.ls("/d")])
        elif what == "copy":
            ok, v = S.attempt(vfs.copy, "/d/f", "/g")
            S.check(not ok, "an unreadable file cannot be copied")
            outs.append(ok)
        else:
            ok, v = S.attempt(vfs.copy, "/d", "/e", recursive=True)
            if ok:
                S.check(not S.attempt(vfs.read_file, "/e/f")[0], "copies of unreadable files are unreadable")
            outs.append(ok)
    S.cover("refused")
    S.check(S.eq(outs[0], outs[1]), "no result depends on the text of an unreadable file")


DIRCMDS = ["ls /", "ls /d", "ls -l /d", "tree /", "tree /d", "find /", "find /d", "find / -name '?'", "echo /d/*", "echo /*/*", "cd /d", "rg x",
           "grep -r x /", "grep -r x /d", "grep x /d", "grep -n -i X /d", "grep x .", "grep x /o /d", "rg x /d", "wc /d", "head /d", "cp -r /d /e\nls /e", "mv /d /e\nls /e", "cat /d", "search x /", "search x /d", "cd /d\nls", "cat '/@search?q=x'/d/a", "ls '/@search?q=x'",
           "tree '/@search?q=x'", "cat /d/*", "wc /d/*", "stat /d", "ls /d/*", "ls", "ls -l", "ls .", "tree", "tree .", "find", "find .", "find . -type f", "echo *", "echo ?", "grep -r x .", "grep -r x", "rg x .", "search x", "search x .", "cat *", "wc *", "pwd", "cd .", "tree ..", "ls ../d", "python3 \"print(vfs.ls())\""]


def directory(S, index):
    """The entries of an unreadable directory never show up in listings or searches."""
    n1, n2 = [S.str("name%d" % i, 1, 1, alphabet="abc") for i in (1, 2)]
    cmd = S.choice("cmd", DIRCMDS)
    inside = S.flag("inside")
    outs = []
    for n in (n1, n2):
        vfs = S.sandfs.VirtualFileSystem()
        vfs.write_file("/d/" + n, "x")
        vfs.write_file("/o", "x other")
        if inside:
            vfs.cd("/d")
        vfs.set_policy("/d", S.sandfs.NodePolicy(readable=False))
        vfs.enable_search_view()
        if index:
            vfs.enable_full_text_index()
        still(vfs)
        r = S.sandfs.SandboxShell(vfs).exec(cmd)
        outs.append((r.exit_code, r.stdout, r.stderr))
        api = [vfs.tree("/"), vfs.glob("/d/*"), vfs.glob("/*/*"), [str(p) for p, _ in vfs.iter_files("/")],
               str(S.attempt(vfs.glob, "*")[1]) if inside else "", str(S.attempt(vfs.glob, "../d/*")[1]) if inside else "",
               S.attempt(vfs.ls, "/d")[0], S.attempt(vfs.cd, "/d")[0], S.attempt(vfs.tree, "/d")[0],
               S.attempt(lambda: list(vfs.iter_files("/d")))[0], S.attempt(vfs.glob, "*", cwd="/d")[0],
               S.attempt(vfs.copy, "/d", "/e", recursive=True)[0]]
        if inside:
            api += [S.attempt(vfs.ls)[0], S.attempt(vfs.tree)[0], S.attempt(vfs.ls, ".")[0], S.attempt(lambda: list(vfs.iter_files(".")))[0]]
        outs.append(api)
        S.check(not any(api[6:]), "an unreadable directory is neither listed, entered, rendered, searched nor copied")
    S.cover("ok")
    S.check(S.eq(outs[0], outs[2]) and S.eq(outs[1], outs[3]), "no listing or search depends on the entries of an unreadable directory")
