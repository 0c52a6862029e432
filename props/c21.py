BOUNDS = ("pipelines of 1-3 commands (recording commands with arbitrary outputs of 1 character, error texts and symbolic exit codes 0-2, one stage possibly cat) with every combination of "
          "input redirection, output redirection and appending per stage, to existing, missing, read-only and directory targets; variables with arbitrary "
          "values of up to 2 characters set before, by prefix assignment and in scripts of 2-3 lines, referenced as $V, ${V}, inside words, as redirection targets and as command name; 12 redirections to and from an empty name")
ASSUMPTIONS = ["values containing the pattern characters * ? [ ] or $ are expanded further and are not specified; several redirections of one kind in one command are not specified"]
BUDGET = {"quick": 200, "thorough": 700}
COVERS = ("ok", "failed")

INS = ["", "< /i "]
OUTS = ["", "> /o", ">> /o", "> /new", ">> /new", "> /ro", "> /d", "< /missing"]
VARS = ["show $V", "show ${V}", "show x$V.y", "show x${V}y z", "show $V $V", "V=$V show $V", "W=$V show ${W}", "show $U", "show x$U", "show '$V'", "$C $V", "show > /f$V", "show < /f$V",
        "V=other show $V"]


EMPTY = ["c0 > ''", "c0 >> ''", "c0 < ''", "c0 > $U", "c0 >> \"$V\"", "c0 < $V", "c0 | c1 > ''", "c0 > '' | c1", "c0 | c1 < ''", "c0 < '' | c1", "c0 < /i > ''", "c0 < '' > /o"]


def cases(tier):
    out = []
    for n in (1, 2, 3):
        for o in range(len(OUTS)):
            out.append((f"pipe{n} {OUTS[o]}", {"kind": "pipe", "n": n, "o": o}))
    for i in range(len(VARS)):
        out.append((f"vars {VARS[i]}", {"kind": "vars", "n": i, "o": 0}))
    for i in range(len(EMPTY)):
        out.append((f"empty {EMPTY[i]}", {"kind": "empty", "n": i, "o": 0}))
    for i in range(6):
        out.append((f"script{i}", {"kind": "script", "n": i, "o": 0}))
    return out


def shell(S, outs, errs, codes, env=None):
    vfs = S.sandfs.VirtualFileSystem()
    sh = S.sandfs.SandboxShell(vfs, env=env)
    calls = []

    def make(i):
        def handler(args, ctx):
            calls.append((i, list(args), ctx.stdin, dict(ctx.env)))
            ctx.env["LEAK"] = "1"
            return S.sandfs.shell.CommandResult(stdout=outs[i], stderr=errs[i], exit_code=codes[i])
        return handler
    for i in range(len(outs)):
        sh.register_command("c%d" % i, make(i))
    return vfs, sh, calls


def run(S, kind, n, o):
    if kind == "vars":
        return variables(S, n)
    if kind == "script":
        return script(S, n)
    if kind == "empty":
        return empty(S, n)
    lo = 0 if S.thorough and n < 3 else 1
    outs = [S.str("out%d" % i, lo, 1) for i in range(n)]
    errs = [S.str("err%d" % i, lo, 1) for i in range(n)]
    codes = [S.int("code%d" % i, 0, 2) for i in range(n)]
    vfs, sh, calls = shell(S, outs, errs, codes)
    old = S.str("old", 1, 1)
    files = {"/i": S.str("i", 1, 1), "/o": old, "/ro": old}
    for p in sorted(files):
        vfs.write_file(p, files[p])
    vfs.set_policy("/ro", S.sandfs.NodePolicy(writable=False))
    vfs.mkdir("/d")
    where = S.pick("where", n) if n > 1 else 0
    k = S.choice("in", INS)
    kin = S.pick("kin", n) if k and n > 1 else 0
    cat = S.flag("cat") and n > 1
    parts = []
    for i in range(n):
        c = "c%d" % i
        if i == kin:
            c += " " + k
        if i == where:
            c += " " + OUTS[o]
        parts.append(c)
    if cat:
        parts.insert(1, "cat")
    line = " | ".join(parts)
    S.note("line " + line)
    # reference
    want = []
    data, err = "", []
    code = 0
    for i in range(n):
        stdin = data
        if i == kin and k:
            stdin = files["/i"]
        if i == where and OUTS[o] == "< /missing":
            code, data = 1, ""
            err = None
            break
        want.append((i, stdin))
        err.append(errs[i])
        data = outs[i]
        if codes[i] != 0:
            code = codes[i]
            break
        if i == where and OUTS[o]:
            target = OUTS[o].split()[1]
            if target in ("/ro", "/d"):
                code, data, err = 1, "", None
                break
            files[target] = (files.get(target, "") if ">>" in OUTS[o] else "") + data
            data = ""
    r = sh.exec(line)
    S.cover("ok" if r.exit_code == 0 else "failed")
    S.check(S.eq([(c[0], c[2]) for c in calls], want), "each stage runs once, in order, with the previous stage's output (or the redirected file) as input, up to the first failure")
    if err is None:
        S.check(r.exit_code != 0 and r.stderr != "", "a redirection that cannot be done is reported as a failure")
    else:
        S.check(r.exit_code == code, "the pipeline reports success, or the first failing command's exit code")
        S.check(r.stdout == data, "the result shows the last command's output unless it was redirected")
        S.check(r.stderr == "".join(err), "error output of the commands is passed on")
    S.check(S.eq({p: vfs.read_file(p) for p in ("/i", "/o", "/ro", "/new") if vfs.exists(p)}, {p: files[p] for p in ("/i", "/o", "/ro", "/new") if p in files}),
            "redirected output replaces or extends exactly the named file, and only when the command succeeded")
    S.check(len(sh.env) == 0, "commands cannot change the shell's variables through their copy")


def empty(S, n):
    """A redirection to or from nothing cannot be done."""
    outs = [S.str("out%d" % i, 0, 1) for i in range(2)]
    vfs, sh, calls = shell(S, outs, ["", ""], [0, 0], env={"V": ""})
    vfs.write_file("/i", "in")
    vfs.mkdir("/d")
    vfs.cd(S.choice("cwd", ["/", "/d"]))
    line = EMPTY[n]
    r = sh.exec(line)
    S.check(r.exit_code != 0 and r.stderr != "", "a redirection that cannot be done is reported as a failure")
    S.check(r.stdout == "", "and shows no output")
    stages = line.split("|")
    bad = [i for i, s in enumerate(stages) if "''" in s or "$" in s][0]
    ran = [c[0] for c in calls]
    S.check(ran == list(range(bad)) + ([bad] if "<" not in stages[bad] or "< /i" in stages[bad] else []), "a command without its input does not run, nor does anything after the failure")
    S.check(sorted(str(p) for p, x in vfs.walk("/")) == ["/", "/d", "/i"] and vfs.read_file("/i") == "in", "nothing is written")
    S.cover("failed")


def variables(S, n):
    v = S.str("v", 0, 2, alphabet="ab =|>'\"\\\u00e9")
    line = VARS[n]
    vfs, sh, calls = shell(S, ["out"], [""], [0], env={"V": v, "C": "show"})
    calls2 = []

    def show(args, ctx):
        calls2.append((list(args), ctx.stdin, dict(ctx.env)))
        return "out"
    sh.register_command("show", show)
    before = dict(sh.env)
    if "/f" in line:
        vfs.write_file("/f" + v, "in")
    r = sh.exec(line)
    S.cover("ok")
    S.check(r.exit_code == 0 and len(calls2) == 1, "the command runs once")
    args, stdin, env = calls2[0]
    want = {"show $V": [v], "show ${V}": [v], "show x$V.y": ["x" + v + ".y"], "show x${V}y z": ["x" + v + "y", "z"], "show $V $V": [v, v], "V=$V show $V": [v],
            "W=$V show ${W}": [v], "show $U": [""], "show x$U": ["x"], "show '$V'": [v], "$C $V": [v], "show > /f$V": [], "show < /f$V": [], "V=other show $V": ["other"]}[line]
    S.check(S.eq(args, want), "a variable's value arrives verbatim in its word, an unset one as nothing")
    if line == "show > /f$V":
        S.check(vfs.read_file("/f" + v) == "out" and r.stdout == "", "redirection targets are expanded")
    if line == "show < /f$V":
        S.check(stdin == "in", "input redirections are expanded")
    if line.startswith("W="):
        S.check(env["W"] == v, "a prefix assignment is visible to its command")
    if line.startswith("V="):
        S.check(env["V"] == ("other" if "other" in line else v), "a prefix assignment is visible to its command")
    S.check(S.eq(dict(sh.env), before), "a prefix assignment does not outlive its command")


def script(S, n):
    outs = [S.str("out%d" % i, 0, 1) for i in range(3)]
    codes = [S.int("code%d" % i, 0, 2) for i in range(3)]
    errs = ["e0", "", "e2"]
    vfs, sh, calls = shell(S, outs, errs, codes)
    v = S.str("v", 0, 1, alphabet="ab")
    text = ["c0\nc1\nc2", "  c0  \n\n\n c1 | c2\n", "V='" + v + "'\nc0 $V\nV=new c1 $V\nc2 $V", "c0 > /o\ncat /o\nc1 < /o | c2", "c0 >> /o\nc1 >> /o\nc2 < /o",
            "cd /d\nc0 > o\nc1 < /d/o\nc2"][n]
    vfs.mkdir("/d")
    r = sh.exec(text)
    S.cover("ok" if r.exit_code == 0 else "failed")
    fail = 3
    for i in range(3):
        if codes[i] != 0:
            fail = i
            break
    S.check(S.eq([c[0] for c in calls], [0, 1, 2][:fail + 1]), "lines run in order up to and including the first failing command")
    S.check(r.exit_code == (codes[fail] if fail < 3 else 0), "a script reports its first failure")
    if fail < 3:
        S.check(r.stdout == outs[fail], "and that command's output")
    else:
        S.check(r.stdout == outs[2], "a successful script shows its last line's output")
    for c in calls:
        i = c[0]
        if n == 1 and i == 2:
            S.check(c[2] == outs[1], "the pipe connects two commands")
        elif n == 3 and i == 1:
            S.check(c[2] == outs[0], "a later line reads what an earlier one wrote")
        elif n == 3 and i == 2:
            S.check(c[2] == outs[1], "the pipe connects two commands")
        elif n == 4 and i == 2:
            S.check(c[2] == outs[0] + outs[1], "appending keeps earlier output")
        elif n == 5 and i == 1:
            S.check(c[2] == outs[0], "relative targets start at the working directory")
        else:
            S.check(c[2] == "", "no input leaks from one line to the next")
        if n == 2:
            S.check(S.eq(c[1], [["" + v], ["new"], [v]][i]), "assignments persist, prefix assignments do not")
    if n == 2:
        S.check(sh.env.get("V") == v, "an assignment line sets the shell's variable")
    else:
        S.check("LEAK" not in sh.env, "commands cannot change the shell's variables through their copy")
