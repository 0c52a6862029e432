from props.lib import Done

BOUNDS = ("exec with 9 kinds of command lines (output, failure, reading, writing, appending, removing and searching below mounts, host fallback on and off) over 0-2 mounted host directories holding files with arbitrary texts of up to 2 characters, nested and overlapping mount points, "
          "with and without search; invalid mounts; 18 spellings of mount points (with colons, blanks, trailing slashes) and 8 of host directories (relative, with dots); interactive sessions of up to 3 lines ending by each quit word, end of input or interrupt")
ASSUMPTIONS = ["the console, the host directory tree and host processes are in-memory stand-ins"]
BUDGET = {"quick": 200, "thorough": 700}
COVERS = ("ok", "failed", "session", "through")

EXECS = ["read", "write", "append", "remove", "fail", "unknown", "search", "host", "out-err", "nested"]


def cases(tier):
    out = [(e + (" search" if s else ""), {"kind": "exec", "what": e, "search": s}) for e in EXECS for s in (False, True)]
    out += [("mounts", {"kind": "mounts", "what": "", "search": False})]
    out += [("session " + q, {"kind": "session", "what": q, "search": False}) for q in (":q", "exit", "quit", " exit ", "EOF", "interrupt")]
    return out


def main(S, argv, lines=(), end=EOFError):
    with S.console(lines, end) as con:
        try:
            S.mod("cli").main(argv)
            code = "returned"
        except SystemExit as exc:
            code = exc.code
    return con, code


def run(S, kind, what, search):
    if kind == "mounts":
        return mounts(S)
    t = S.str("t", 0, 2)
    S.fs.mkdir("/home/p")
    S.fs.put("/home/p/f", t)
    S.fs.mkdir("/home/q")
    S.fs.put("/home/q/g", "other")
    S.fs.put("/home/x", "outside")
    if kind == "session":
        return session(S, what, t)
    argv = ["exec", "--mount", "/home/p:/w", "--mount", "/home/q:" + ("/w/sub" if what == "nested" else "/v")]
    if search:
        argv.append("--enable-search")
    runs = []

    def host(args, cwd, stdin, env):
        runs.append(list(args))
        return Done(args, stdout="H", stderr="E", returncode=4)
    fallback = what == "host" or (what == "unknown" and S.flag("fallback"))
    if fallback:
        argv.append("--host")
        S.fs.handler = host
    line = {"read": "cat /w/f", "write": "write /w/n/new 'a b'", "append": "append /w/f zz", "remove": "rm /w/f", "fail": "cat /w/missing", "unknown": "nosuch x", "host": "nosuch x",
            "search": "search -n " + ("o" if what == "search" and S.flag("other") else "x") + " /", "out-err": "echo hi > /w/o\ncat /w/o /v/g", "nested": "write /w/sub/g new"}[what]
    con, code = main(S, argv + [line])
    want = {"f": t}
    q = "other"
    if what in ("read", "write", "append", "remove", "nested", "out-err", "search"):
        S.check(code == 0 and con.err == "", "a command that succeeds exits with 0 and no error text")
        S.cover("ok")
    if what == "read":
        S.check(con.out == t, "its output is printed verbatim")
    elif what == "write":
        want["n/new"] = "a b"
        S.check(con.out == "", "and nothing else is printed")
    elif what == "append":
        want["f"] = t + "zz"
    elif what == "remove":
        del want["f"]
    elif what == "nested":
        q = "new"
    elif what == "out-err":
        want["o"] = "hi\n"
        S.check(con.out == "hi\nother", "the output of the last line is printed")
    elif what == "fail":
        S.check(code == 1 and con.out == "" and con.err != "", "a failing command's error text and code are passed on")
        S.cover("failed")
    elif what in ("unknown", "host"):
        if fallback:
            S.check(code == 4 and con.out == "H" and con.err == "E" and runs == [["nosuch", "x"]], "unknown commands go to the host when asked, and its outcome is passed on")
        else:
            S.check(code == 127 and runs == [] and con.err != "" and con.out == "", "unknown commands fail")
        S.cover("failed")
    elif what == "search":
        have = con.out
        if line[10:11] == "o":
            S.check("/v/g:1:other" in have, "searching covers the mounts")
        S.check(S.iff("/w/f:1:" in have, line[10:11] in first_line(t)), "with the present texts")
    tree = dict((rel, d.decode("utf-8")) for rel, k, d in S.fs.tree("/home/p") if k == "f")
    S.check(sorted(tree) == sorted(want), "changes below a mount, and only these, reach its host directory")
    for k in sorted(want):
        S.check(tree[k] == want[k], "the host files have the texts written")
    S.check(S.fs.text("/home/q/g") == q and S.fs.text("/home/x") == "outside", "other host files are untouched")
    S.check([r for r, k, d in S.fs.tree("/home/q")] == ["g"], "nothing is added elsewhere")
    S.cover("through")


def first_line(t):
    return t.splitlines()[0] if t.splitlines() else ""


def mounts(S):
    which = S.pick("which", 4)
    bad = ["/home/p", "", "nocolon", "/a;/b"][which]
    S.fs.mkdir("/home/p")
    S.fs.put("/home/p/f", "x")
    try:
        con, code = main(S, ["exec", "--mount", bad, "rm /f"])
        S.check(code not in (0, "returned"), "an invalid mount is an error")
    except ValueError:
        pass
    S.check(S.fs.text("/home/p/f") == "x", "and runs nothing")
    con, code = main(S, ["exec", "pwd"])
    S.check(code == 0 and con.out == "/", "without mounts commands run in an empty tree")
    con, code = main(S, ["exec", "ls /"])
    S.check(code == 0 and con.out == "" and con.err == "", "which is empty")
    at = S.choice("at", ["/a", "/a:b", "/a:b/c:d", "/a/", "/:", "/a b", "/\u00e9", "/a=b", "/."]) + S.choice("end", ["", "/"])
    con, code = main(S, ["exec", "--mount", "/home/p:" + at, "cat '" + at + "/f'"])
    S.check(code == 0 and con.out == "x" and con.err == "", "a mount point is everything after the first colon")
    S.fs.mkdir("/work/s")
    S.fs.mkdir("/work/s/t")
    S.fs.put("/work/s/f", "near")
    S.fs.put("/work/g", "up")
    src = S.choice("src", ["s", "./s", "s/", "s/t/..", "../work/s", "./s/./", "/work/s", "/work/../work/s"])
    con, code = main(S, ["exec", "--mount", src + ":/w", "cat /w/f\nwrite /w/t/n new"])
    S.check(code == 0 and con.err == "" and S.fs.text("/work/s/t/n") == "new" and S.fs.text("/work/g") == "up", "a mounted directory may be given relative to the current one")
    con, code = main(S, ["exec", "--mount", src + ":/w", "cat /w/f"])
    S.check(code == 0 and con.out == "near", "and is the one found there")
    con, code = main(S, ["exec", "--mount", "/home/p:/a/b", "--mount", "/home/new:/n", "cat /a/b/f"])
    S.check(code == 0 and con.out == "x", "mount points are created with their parents")
    S.cover("failed")


def session(S, what, t):
    n = S.pick("n", 3)
    lines = ["cd /w", "cat f", "cat missing"][:n + 1]
    end = {"EOF": EOFError, "interrupt": KeyboardInterrupt}.get(what)
    con, code = main(S, ["shell", "--mount", "/home/p:/w"], lines + ([what, "write /w/late x"] if end is None else []), end or EOFError)
    S.check(code == 0, "a session ends normally")
    S.check(t in con.out if n >= 1 else "/w" in con.out, "every line's output is printed")
    S.check((con.err != "") == (n >= 2), "and error texts")
    S.check([r for r, k, d in S.fs.tree("/home/p")] == ["f"] and S.fs.text("/home/p/f") == t, "nothing after the end is run")
    if con.prompts:
        S.check("/" in con.prompts[0] and (n == 0 or "/w" in con.prompts[1]), "the prompt names the working directory")
    S.cover("session")
