from props import lib

BOUNDS = ("limits of 0-60 bytes (symbolic) and no limit; outputs and error texts of up to 2 (thorough: 3) arbitrary characters (1-4 bytes each; lone surrogates in one case) from a registered command in each of its "
          "return forms, a file printed by 9 built-in commands, a pipeline of 2 commands, a host process, 30 failing commands and redirections naming an arbitrary word of up to 18 characters, and a script")
ASSUMPTIONS = ["the notice that the limit was exceeded, and messages about command lines that cannot be parsed, are fixed texts not subject to the limit"]
BUDGET = {"quick": 200, "thorough": 700}
COVERS = ("fits", "exceeded", "unlimited")

PRINTS = ["cat /f", "cat < /f", "cat /f | cat", "head -n 5 /f", "tail -c 9 /f", "cat /f\ncat /f", "grep a /f", "wc /f", "echo -n $V", "printf $V", "ls /d", "find /d", "tree /d", "V=1 cat /f", "cat /f > /o", "cat /f | wc -c"]


REFUSED = ["cat < /W", "echo x > /f/W", "echo x >> /f/W", "echo x | cat < /W", "ls /W", "cd /W", "rm /W", "cp /W /n", "mv /W /n", "head /W", "grep x /W", "host ls /W", "echo x > $V", "V=/W\ncat < $V", "python -c W", "find /W", "ls -W", "stat /W",
           "tree /W", "mkdir /f/W", "touch /f/W", "write /f/W x", "append /f/W x", "search x /W", "rg x /W", "wc /W", "tail /W", "W=1\ncat /W"]


def cases(tier):
    out = [(f"handler {f}", {"kind": "handler", "arg": f}) for f in ("result", "str", "none", "error", "sandbox", "object")]
    out += [(f"print {c!r}", {"kind": "print", "arg": c}) for c in PRINTS]
    out += [(k, {"kind": k, "arg": ""}) for k in ("pipe", "host", "unknown", "missing", "surrogate")]
    out += [(f"refused {c!r}", {"kind": "refused", "arg": c}) for c in REFUSED]
    return out


def size(s):
    n = 0
    for c in s:
        n += 1 if c < "\x80" else 2 if c < "\u0800" else 3 if c < "\U00010000" else 4
    return n


def run(S, kind, arg):
    vfs = S.sandfs.VirtualFileSystem()
    limited = S.flag("limited")
    limit = S.int("limit", 0, 60) if limited else None
    n = 3 if S.thorough else 2
    sh = S.sandfs.SandboxShell(vfs, max_output_bytes=limit)
    free = S.sandfs.SandboxShell(vfs)
    Result = S.sandfs.shell.CommandResult
    if kind == "handler":
        out = S.str("out", 0, n)
        err = S.str("err", 0, 2 if S.thorough else 1, alphabet=None if S.thorough else "e\u20ac") if arg == "result" else ""
        code = S.int("code", 0, 1) if arg == "result" else 0

        def handler(args):
            if arg == "result":
                return Result(stdout=out, stderr=err, exit_code=code)
            if arg == "str":
                return out
            if arg == "none":
                return None
            if arg == "error":
                raise ValueError(out)
            if arg == "sandbox":
                raise S.exc.SandboxError(out)
            return Custom(out)
        for s in (sh, free):
            s.register_command("c", handler)
        line = "c"
    elif kind == "print":
        t = S.str("t", 0, n, alphabet="a\u00e9\u20ac\U0001f600" + ("" if "$V" in arg else "\n"))
        vfs.write_file("/f", t)
        vfs.write_file("/d/" + S.str("name", 1, 1, alphabet="a\u00e9\u20ac\U0001f600"), "")
        for s in (sh, free):
            s.env["V"] = t
        line = arg
    elif kind == "pipe":
        k = 2 if S.thorough else 1
        a, b = S.str("a", 0, k, alphabet="a\U0001f600"), S.str("b", 0, k, alphabet="a\u20ac")
        ea, eb = S.str("ea", 0, 1, alphabet="e\u00e9"), S.str("eb", 0, 1, alphabet="e\u20ac")
        for s in (sh, free):
            s.register_command("c", lambda args, ctx: Result(stdout=a, stderr=ea))
            s.register_command("d", lambda args, ctx: Result(stdout=b, stderr=eb))
        line = "c | d"
    elif kind == "host":
        out, err = S.str("out", 0, n), S.str("err", 0, 1)
        S.fs.handler = lambda argv, cwd, data, env: lib.Done(argv, 0, out, err)
        line = "host x"
    elif kind == "unknown":
        line = S.str("w", 1, n, alphabet="ab\u00e9\u20ac\U0001f600")
    elif kind == "refused":
        w = S.str("w", 1, n, alphabet="ab\u00e9\u20ac\U0001f600" if S.thorough else "a\u20ac") * S.choice("times", [1, 9])
        vfs.write_file("/f", "")
        S.fs.handler = lambda argv, cwd, data, env: lib.Done(argv, 1, "", " ".join(argv))
        for s in (sh, free):
            s.env["V"] = "/f/" + w
        line = arg.replace("W", w)
    elif kind == "missing":
        line = "cat /" + S.str("w", 1, n, alphabet="ab\u00e9\u20ac\U0001f600")
    else:
        out = ["\ud800", "a\udfff", "\ud83d\ude00"][S.pick("sur", 3)]
        for s in (sh, free):
            s.register_command("c", lambda args: out)
        line = "c"
    whole = free.exec(line)
    r = sh.exec(line)
    if not limited:
        S.cover("unlimited")
        S.check(S.eq((r.stdout, r.stderr, r.exit_code), (whole.stdout, whole.stderr, whole.exit_code)), "without a limit nothing is cut")
        return
    if kind == "surrogate":
        total = 6 if out == "\ud83d\ude00" else 3 + len(out) - 1
    else:
        total = size(whole.stdout) + size(whole.stderr)
    intact = S.eq((r.stdout, r.stderr, r.exit_code), (whole.stdout, whole.stderr, whole.exit_code))
    if total > limit:
        S.cover("exceeded")
        S.check(r.exit_code != 0 and r.stdout == "", "output larger than the limit is rejected, nothing of it is shown")
        S.check("limit" in r.stderr, "and the reason is given")
        sh.register_command("z", lambda args: "z" * 70)
        S.check(sh.exec("z").stderr == r.stderr, "nothing of it is shown in the notice either")
    else:
        pre = 0
        if kind == "pipe":
            pre = size(a) + size(ea)
        elif kind == "print" and ("|" in arg or ">" in arg):
            pre = size(t)
        if pre > limit:
            return
        S.cover("fits")
        S.check(intact, "output within the limit is shown unchanged")


class Custom:
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text
