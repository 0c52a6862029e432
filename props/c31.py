BOUNDS = ("words of up to 2 characters (any characters but the pattern characters), passed quoted, from variables or literally; up to 3 words; "
          "printf formats of up to 3 (thorough: 4) pieces out of letters, %s and the escapes, with as many values as %s; write and append with --text and --append in every position, "
          "on missing, existing and nested files, relative and absolute, with a search index and a storage mount")
ASSUMPTIONS = ["formats with other conversions or another number of values than %s are not specified; words containing the pattern characters * ? [ ] are subject to expansion"]
BUDGET = {"quick": 200, "thorough": 700}
COVERS = ("echo", "printf", "new", "replaced", "appended")

ECHO = [('echo "$A" "$B"', "AB", True), ('echo -n "$A" "$B"', "AB", False), ('echo "$A" -n', "A-", True), ("echo", "", True), ("echo -n", "", False), ('echo "$A"', "A", True),
        ('echo -n "$A"', "A", False), ('echo x "$A" y', "xAy", True), ('echo -n -n "$A"', "-A", False)]
WRITES = ['write F "$A"', 'write F "$A" "$B"', 'write F --text "$A"', 'write F --append "$A"', 'write F --append --text "$A"', 'write F --text "$A" --append', 'write F "$A" --append "$B"', "write F",
          'write F --text "$A" --text "$B"', 'append F "$A"', 'append F "$A" "$B"', 'echo "$A" > F', 'echo -n "$A" >> F', 'printf "%s" "$A" > F', 'printf "%s:%s" "$A" "$B" >> F']
PIECES = ["a", "%s", "\\n", "\\t", "\\\\", "\\r", "n", " ", "\\a"]
OUT = {"a": "a", "\\n": "\n", "\\t": "\t", "\\\\": "\\", "\\r": "\r", "n": "n", " ": " ", "\\a": None}


def cases(tier):
    out = [("echo%d" % i, {"kind": "echo", "i": i}) for i in range(len(ECHO))]
    out += [("printf%d" % i, {"kind": "printf", "i": i}) for i in range(len(PIECES))]
    out += [("write%d" % i, {"kind": "write", "i": i}) for i in range(len(WRITES))]
    out += [("errors", {"kind": "errors", "i": 0})]
    return out


def word(S, name, lo=0, hi=2):
    w = S.str(name, lo, hi)
    for c in w:
        S.assume(S.neg(S.any([c == x for x in "*?[]"])))
    return w


def run(S, kind, i):
    vfs = S.sandfs.VirtualFileSystem()
    if kind == "errors":
        sh = S.sandfs.SandboxShell(vfs)
        vfs.write_file("/f", "old")
        vfs.mkdir("/d")
        for line in ("write", "append", "append /f", "write /d x", "append /d x", "write /f/x y", "write / x"):
            r = sh.exec(line)
            S.check(r.exit_code != 0 and r.stderr != "", "a missing operand or impossible target is an error")
            S.check(vfs.read_file("/f") == "old" and [str(p) for p, _ in vfs.walk("/")] == ["/", "/f", "/d"], "and changes nothing")
        return
    if kind == "printf":
        sh = S.sandfs.SandboxShell(vfs)
        fmt = [PIECES[i]]
        for k in range(3 if S.thorough else 2):
            fmt.append(S.choice("p%d" % k, PIECES[:-1]))
        vals = []
        want = ""
        for k, p in enumerate(fmt):
            if p == "%s":
                v = word(S, "v%d" % k, 1, 1)
                vals.append(v)
                sh.env["V%d" % k] = v
                want += v
            elif OUT[p] is None:
                want += p
            else:
                want += OUT[p]
        args = " ".join("\"$V%d\"" % k for k, p in enumerate(fmt) if p == "%s")
        r = sh.exec("printf '" + "".join(fmt) + "' " + args)
        S.check(r.exit_code == 0 and r.stderr == "", "printing succeeds")
        S.check(r.stdout == want, "printf interprets the escapes of its format and prints its values verbatim")
        S.cover("printf")
        return
    a = word(S, "A", 0 if kind == "write" else 1)
    b = word(S, "B", 0 if kind == "write" else 1)
    S.assume(S.neg(a == "-n"))
    env = {"A": a, "B": b}
    sh = S.sandfs.SandboxShell(vfs, env=env)
    if kind == "echo":
        line, words, nl = ECHO[i]
        r = sh.exec(line)
        want = " ".join([{"A": a, "B": b, "-": "-n"}.get(w, w) for w in words]) + ("\n" if nl else "")
        S.check(r.exit_code == 0 and r.stderr == "", "echoing succeeds")
        S.check(r.stdout == want, "echo prints its words separated by blanks, and a newline unless -n comes first")
        S.cover("echo")
        return
    how = S.pick("how", 4)
    store = None
    if how == 3:
        store = S.sandfs.MemoryStorageAdapter({"old": "o"})
        vfs.mount_storage("/m", store)
    vfs.enable_full_text_index()
    vfs.write_file("/d/old", "o")
    vfs.write_file("/keep", "k")
    vfs.cd("/d")
    name, path = [("new", "/d/new"), ("/x/y", "/x/y"), ("old", "/d/old"), ("/m/old", "/m/old")][how]
    before = "o" if vfs.exists(path) else ""
    version = vfs.get_version(path) if vfs.exists(path) else 0
    line = WRITES[i].replace("F", name)
    r = sh.exec(line)
    S.check(r.exit_code == 0 and r.stdout == "" and r.stderr == "", "writing succeeds and prints nothing")
    text = b if False else None
    w = WRITES[i]
    if w.startswith("echo \""):
        text = a + "\n"
    elif w.startswith("echo -n"):
        text = a
    elif w.startswith("printf"):
        text = a + ":" + b if "$B" in w else a
    elif w == "write F":
        text = ""
    else:
        text = a + " " + b if "$B" in w else a
    app = "--append" in w or w.startswith("append") or ">>" in w
    S.check(vfs.read_file(path) == ((before if app else "") + text), "exactly the words, separated by blanks, become or extend the text")
    S.check(vfs.get_version(path) == version + 1, "in one write")
    if store is not None:
        S.check(store.read("old").content == ((before if app else "") + text), "which reaches the storage")
    S.check(vfs.read_file("/keep") == "k" and (path == "/d/old" or vfs.read_file("/d/old") == "o"), "other files are untouched")
    S.cover("new" if version == 0 and how < 2 else "appended" if app else "replaced")
