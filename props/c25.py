BOUNDS = ("texts of up to 5 (thorough: 6) characters over a letter, a two-byte letter and newline; counts 0-7; lines or characters (ASCII texts); file operand, '-', standard input from a redirection or a pipe, "
          "default count with texts of 9-12 lines; wc with and without -l/-c on 1-2 operands; cat of up to 3 operands")
ASSUMPTIONS = ["with several operands head and tail print headings whose layout is not specified; counts below zero and other line separators than newline are not specified"]
BUDGET = {"quick": 200, "thorough": 700}
COVERS = ("part", "whole", "empty")


def cases(tier):
    out = []
    for c in ("head", "tail"):
        for opt in ("n", "c"):
            for src in ("file", "redirect", "pipe", "dash"):
                out.append((f"{c} -{opt} {src}", {"kind": c, "opt": opt, "src": src}))
        out.append((f"{c} default", {"kind": c, "opt": "", "src": "file"}))
        out.append((f"{c} errors", {"kind": c, "opt": "errors", "src": "file"}))
        out.append((f"{c} several", {"kind": c, "opt": "several", "src": "file"}))
    for src in ("file", "redirect", "pipe", "dash"):
        for opt in ("", "-l", "-c", "-l -c", "-c -l"):
            out.append((f"wc {opt} {src}", {"kind": "wc", "opt": opt, "src": src}))
    out.append(("wc two", {"kind": "wc", "opt": "two", "src": "file"}))
    out.append(("cat", {"kind": "cat", "opt": "", "src": "file"}))
    return out


def lines_of(t):
    out, cur = [], ""
    for c in t:
        cur += c
        if c == "\n":
            out.append(cur)
            cur = ""
    if cur != "":
        out.append(cur)
    return out


def nbytes(t):
    return sum(1 if c < "\x80" else 2 for c in t)


def command(kind, opts, src):
    o = " ".join(x for x in [kind] + opts if x)
    return {"file": o + " /d/f", "redirect": o + " < /d/f", "pipe": "cat /d/f | " + o, "dash": "cat /d/f | " + o + " -"}[src]


def run(S, kind, opt, src):
    n = 6 if S.thorough else 5
    vfs = S.sandfs.VirtualFileSystem()
    sh = S.sandfs.SandboxShell(vfs)
    if kind == "cat":
        a, b = S.str("a", 0, 1), S.str("b", 0, 1)
        vfs.write_file("/a", a)
        vfs.write_file("/b", b)
        for line, want in (("cat /a", a), ("cat /a /b", a + b), ("cat /b /a /b", b + a + b), ("cat < /a", a), ("cat /b | cat", b), ("cat /a | cat - /b -", a + b + a), ("cat", ""), ("cat /a | cat -", a)):
            r = sh.exec(line)
            S.check(r.exit_code == 0 and r.stdout == want and r.stderr == "", "cat prints exactly its inputs in order")
        S.cover("part")
        return
    if opt == "several":
        a, b = S.str("a", 0, 2, alphabet="x\n"), S.str("b", 0, 2, alphabet="y\n")
        vfs.write_file("/a", a)
        vfs.write_file("/b", b)
        one = sh.exec(kind + " -n 1 /a").stdout
        two = sh.exec(kind + " -n 1 /b").stdout
        r = sh.exec(kind + " -n 1 /a /b")
        i, j = r.stdout.find("/a"), r.stdout.find("/b")
        S.check(r.exit_code == 0 and 0 <= i < j, "each part is labelled with its file, in order")
        S.check(("x" in r.stdout[i:j]) == ("x" in one) and ("y" in r.stdout[j:]) == ("y" in two) and "y" not in r.stdout[:j] and "x" not in r.stdout[j:], "each part shows that file")
        S.cover("part")
        return
    if opt == "errors":
        vfs.write_file("/d/f", "x\n")
        for line in ("-n", "-c", "-n x /d/f", "-c 1x /d/f", "/missing", "/d", "-n 1 /d/f /missing", "-n '' /d/f"):
            r = sh.exec(kind + " " + line)
            S.check(r.exit_code != 0 and r.stderr != "" and r.stdout == "", "a missing or malformed count or operand is an error")
        S.cover("part")
        return
    if kind == "wc":
        t = S.str("t", 0, n - 1, alphabet="a\u00e9\n")
        vfs.write_file("/d/f", t)
        if opt == "two":
            vfs.write_file("/g", "x\n")
            r = sh.exec("wc /d/f /g")
            S.check(r.stdout.splitlines() == [" ".join([str(len(lines_of(t))), str(nbytes(t)), "/d/f"]), "1 2 /g"], "one line per file")
            S.cover("part")
            return
        r = sh.exec(command("wc", [opt], src))
        S.check(r.exit_code == 0, "counting succeeds")
        words = r.stdout.split()
        want = []
        if opt != "-c":
            want.append(str(len(lines_of(t))))
        if opt != "-l":
            want.append(str(nbytes(t)))
        S.check(S.eq(words[:len(want)], want), "wc counts lines (a last unfinished one included) and UTF-8 bytes, lines first")
        S.check(S.eq(words[len(want):], {"file": ["/d/f"], "dash": ["-"]}.get(src, [])), "followed by the operand")
        S.cover("part")
        return
    if opt == "":
        k = S.pick("lines", 4) + 9
        t = "".join("%d\n" % i for i in range(k)) + S.str("last", 0, 1, alphabet="z")
        count, mode = 10, "n"
        opts = []
    else:
        t = S.str("t", 0, n, alphabet="a\n" if opt == "c" else "a\u00e9\n")
        count = S.pick("count", n + 3)
        mode = opt
        opts = ["-" + opt, str(count)]
    vfs.write_file("/d/f", t)
    units = lines_of(t) if mode == "n" else list(t)
    if count >= len(units):
        part = units
        S.cover("whole")
    elif kind == "head":
        part = units[:count]
        S.cover("part")
    else:
        part = units[len(units) - count:]
        S.cover("part" if count else "empty")
    r = sh.exec(command(kind, opts, src))
    S.check(r.exit_code == 0 and r.stderr == "", "the command succeeds")
    S.check(r.stdout == "".join(part), kind + " prints exactly the requested part")
    if r.stdout == "":
        S.cover("empty")
