BOUNDS = ("whole command lines: 'a' followed by every string of up to 4 (thorough: 5) characters over a, #, =, space, both quotes, backslash, |, < and >, checked against "
          "an independent lexer; 'a' followed by every sequence of 5 (thorough: 6) operators, words and assignments, glued or separated by blanks; single words of 1-2 (thorough: 3) characters over 18 characters (operators, quotes, backslash, #, &, ;, =, ~, letters, a "
          "private-use and an astral character; and over 11 unusual separators and blanks) quoted in 4 ways, alone, glued to other text, as redirection target, assignment value and text of echo and write")
ASSUMPTIONS = ["line breaks (line feed, carriage return) separate command lines even inside quotes; $ and the pattern characters * ? [ ] are expanded inside quotes too (recorded as F17), so they are not among the characters",
               "runs of operator characters other than |, <, > and >> and redirection targets that are operators are not specified"]
BUDGET = {"quick": 200, "thorough": 700}
COVERS = ("words", "error", "pipe", "redirect")

LETTERS = "a#= '\"\\|<>"
WORD = "|<> '\"\\a=#&;~!(b\ue000\U0001f600"
TOKENS = [">", ">>", "<", "|", "b", "a=b"]
ODD = "a\x0b\x0c\x1c\x1e\x85\u2028\u2029\xa0\t\x00"     # separators that are no line breaks for a shell
STYLES = ["single", "double", "escape", "mixed"]


def cases(tier):
    n = 5 if tier == "thorough" else 4
    out = []
    for c in LETTERS:
        for d in (LETTERS if tier == "thorough" else [""]):
            out.append((f"line a{c}{d}", {"kind": "line", "first": c + d, "n": n - 1 - len(d)}))
    for c in TOKENS:
        out.append((f"tokens {c}", {"kind": "tokens", "first": c, "n": 5 if tier == "thorough" else 4}))
    for style in STYLES:
        for use in ("arg", "glued", "two", "echo", "write", "target", "assign", "stdin"):
            out.append((f"word {style} {use}", {"kind": "word", "first": style, "use": use, "n": 3 if tier == "thorough" and use in ("arg", "glued") else 2}))
    for style in STYLES:
        for use in ("arg", "glued", "echo", "write", "target", "assign"):
            out.append((f"odd {style} {use}", {"kind": "odd", "first": style, "use": use, "n": 2}))
    return out


def lex(s):
    """Reference: [(is_operator, text)], or None when quoting is not closed."""
    out = []
    cur, inword = "", False
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == "'":
            j = i + 1
            inword = True
            while j < n and s[j] != "'":
                cur += s[j]
                j += 1
            if j >= n:
                return None
            i = j + 1
        elif c == '"':
            j = i + 1
            inword = True
            while j < n and s[j] != '"':
                if s[j] == "\\":
                    if j + 1 >= n:
                        return None
                    if s[j + 1] == '"' or s[j + 1] == "\\":
                        cur += s[j + 1]
                    else:
                        cur += "\\" + s[j + 1]
                    j += 2
                    continue
                cur += s[j]
                j += 1
            if j >= n:
                return None
            i = j + 1
        elif c == "\\":
            if i + 1 >= n:
                return None
            inword = True
            cur += s[i + 1]
            i += 2
        elif c == " ":
            if inword:
                out.append((False, cur))
            cur, inword = "", False
            i += 1
        elif c == "|" or c == "<" or c == ">":
            if inword:
                out.append((False, cur))
            cur, inword = "", False
            run = ""
            while i < n and (s[i] == "|" or s[i] == "<" or s[i] == ">"):
                run += s[i]
                i += 1
            out.append((True, run))
        else:
            cur += c
            inword = True
            i += 1
    if inword:
        out.append((False, cur))
    return out


def structure(tokens):
    """-> list of commands, 'error', or None when unspecified"""
    cmds = []
    cur = {"words": [], "assign": [], "in": None, "out": None, "append": False}

    def done():
        if not cur["words"]:
            return False
        cmds.append(cur)
        return True
    i = 0
    while i < len(tokens):
        op, t = tokens[i]
        if op and t not in ("|", "<", ">", ">>"):
            return None
        if op and t == "|":
            if not done():
                return "error"
            cur = {"words": [], "assign": [], "in": None, "out": None, "append": False}
            i += 1
            continue
        if op:
            if i + 1 >= len(tokens):
                return "error"
            if tokens[i + 1][0]:
                return None
            if t == "<":
                cur["in"] = tokens[i + 1][1]
            else:
                cur["out"] = tokens[i + 1][1]
                cur["append"] = t == ">>"
            i += 2
            continue
        eq = -1
        if not cur["words"]:
            for k in range(len(t)):
                if t[k] == "=":
                    eq = k
                    break
        if eq > 0 and all(c == "a" for c in t[:eq]):
            cur["assign"].append((t[:eq], t[eq + 1:]))
        else:
            cur["words"].append(t)
        i += 1
    if not done():
        if cur["assign"] and not cmds and cur["in"] is None and cur["out"] is None:
            return None          # a line of assignments
        return "error"
    return cmds


def run(S, kind, first, n, use=None):
    if kind in ("word", "odd"):
        return word(S, first, use, n, WORD if kind == "word" else ODD)
    if kind == "tokens":
        sep = S.choice("sep", ["", " "])
        line = "a" + sep + first
        for k in range(n):
            line += sep + S.choice("t%d" % k, [t for t in TOKENS if sep or t != "a=b"])
    else:
        line = "a" + first + S.str("rest", 0, n, alphabet=LETTERS)
    parse = S.mod("shell_parser").parse_pipeline
    tokens = lex(line)
    want = "error" if tokens is None else structure(tokens)
    if want is None:
        return
    ok, got = S.attempt(parse, line, also=(ValueError,))
    if want == "error":
        S.cover("error")
        calls, sh = recorder(S)
        r = sh.exec(line)
        S.check(r.exit_code != 0 and r.stderr != "", "an incomplete command line is an error")
        S.check(not calls and not sh.vfs.ls("/") and sh.env == {}, "and nothing of it is run")
        return
    S.check(ok, "a complete command line is accepted")
    S.cover("words")
    S.check(len(got.commands) == len(want), "one command per pipeline stage")
    if len(want) > 1:
        S.cover("pipe")
    for c, w in zip(got.commands, want):
        S.check(S.eq([c.name] + list(c.args), w["words"]), "each command gets exactly its words")
        S.check((c.stdin is None) == (w["in"] is None) and (c.stdout is None) == (w["out"] is None), "redirections are recognised")
        if w["in"] is not None or w["out"] is not None:
            S.cover("redirect")
        if w["in"] is not None:
            S.check(c.stdin == w["in"], "input comes from the named file")
        if w["out"] is not None:
            S.check(c.stdout == w["out"] and c.append == w["append"], "output goes to the named file, appended for >>")
        S.check(S.eq(sorted(c.assignments.items()), sorted(dict(w["assign"]).items())), "leading assignments are recognised")


def recorder(S):
    calls = []
    vfs = S.sandfs.VirtualFileSystem()
    sh = S.sandfs.SandboxShell(vfs)

    def show(args, ctx):
        calls.append((list(args), ctx.stdin, dict(ctx.env)))
        return "out"
    for name in ("a", "show"):
        sh.register_command(name, show)
    return calls, sh


def quote(w, style):
    if style == "single":
        return "".join(["'"] + [("'\\''" if c == "'" else c) for c in w] + ["'"])
    if style == "double":
        return "".join(['"'] + [("\\" + c if c in '"\\' else c) for c in w] + ['"'])
    if style == "escape":
        return "".join("\\" + c for c in w)
    return "".join(("'" + c + "'" if c in '"\\ ' else '"' + c + '"' if c in "'|" else "\\" + c) for c in w)


def word(S, style, use, n, letters):
    w = S.str("w", 1, n, alphabet=letters)
    q = quote(w, style)
    calls, sh = recorder(S)
    vfs = sh.vfs
    S.cover("words")
    if use == "arg":
        r = sh.exec("show " + q)
        S.check(S.eq([c[0] for c in calls], [[w]]), "a quoted word arrives as one argument with exactly its characters")
    elif use == "glued":
        r = sh.exec("show x" + q + "y z")
        S.check(S.eq([c[0] for c in calls], [["x" + w + "y", "z"]]), "quoting inside a word keeps it together")
    elif use == "two":
        r = sh.exec("show " + q + "  " + q + " | show " + q)
        S.check(S.eq([c[0] for c in calls], [[w, w], [w]]), "words stay separate and operators around them work")
    elif use == "echo":
        r = sh.exec("echo -n x " + q)
        S.check(r.stdout == "x " + w, "echo prints exactly the words")
    elif use == "write":
        r = sh.exec("write /f x" + q)
        S.check(vfs.read_file("/f") == "x" + w, "write stores exactly the text")
    elif use == "target":
        r = sh.exec("show hello > /f" + q)
        S.check(S.eq([e.name for e in vfs.ls("/")], ["f" + w]) and vfs.read_file("/f" + w) == "out", "output goes to the file of that name")
    elif use == "assign":
        r = sh.exec("V=" + q + " show")
        S.check(calls[0][2].get("V") == w, "an assignment sets exactly the text")
    else:
        vfs.write_file("/f" + w, "in")
        r = sh.exec("show < /f" + q)
        S.check(len(calls) == 1 and calls[0][1] == "in", "input comes from the file of that name")
    S.check(r.exit_code == 0, "the command line runs")
