BOUNDS = ("a file of up to 3 (thorough: 4) characters over x, X, y and newline (thorough: also carriage return) next to fixed files in a 3-level tree; patterns of 1-2 "
          "characters over the same letters, and 13 fixed regular expressions; grep, rg, search and the search API with files, directories, several operands, "
          "standard input, the working directory, with the search view enabled next to files of similar names; case-insensitive, numbered; with and without index; patterns and lines over 12 letters with unusual or context-dependent case and 5 non-ASCII pairs")
BUDGET = {"quick": 200, "thorough": 700}
COVERS = ("some", "none")

REGEX = ["x", "^x", "x$", "x.", "x|y", "[^x]", "^x?y$", "xX", "(x)y*$", "\\D", "\\Sy", "^$", "x*"]
FORMS = {  # command line with {p} for the pattern, {o} for options -> files searched (None: standard input)
    "grep {o} {p} /f": ["/f"], "grep {p} {o} /f": ["/f"], "grep {o} {p} /f /g": ["/f", "/g"], "grep {o} {p} /d": ["/d/f", "/d/g"],
    "grep -r {o} {p} /d": ["/d/f", "/d/g", "/d/e/h"], "grep -R {o} {p} /": ["/f", "/g", "/d/f", "/d/g", "/d/e/h"],
    "rg {o} {p} /d": ["/d/f", "/d/g", "/d/e/h"], "rg {o} {p} /f": ["/f"],
    "search {o} {p} /d": ["/d/f", "/d/g", "/d/e/h"], "search {o} {p} /f": ["/f"], "search {o} {p}": ["/f", "/g", "/d/f", "/d/g", "/d/e/h"],
    "search {o} {p} /d/e /f": ["/d/e/h", "/f"], "cd /d\nsearch {o} {p}": ["/d/f", "/d/g", "/d/e/h"], "search {o} {p} /d/../f": ["/f"],
    "cat /f | grep {o} {p}": None, "grep {o} {p} < /f": None, "cat /f | grep {o} {p} -": None, "cat /f | rg {o} {p}": None,
    "grep {o} {p} /f /f": ["/f", "/f"], "search {o} {p} /f /f": ["/f", "/f"], "grep {o} {p} /f /d/f /f": ["/f", "/d/f", "/f"], "grep -r {o} {p} /d/e /d/e": ["/d/e/h", "/d/e/h"],
    "cd /d\ngrep {o} {p} f": ["/d/f"], "cd /d\ngrep -r {o} {p} .": ["/d/f", "/d/g", "/d/e/h"],
}
FIXED = {"/g": "y\nXx y", "/d/f": "no\n\nxy", "/d/g": "X", "/d/e/h": "x\ny\nx"}


def cases(tier):
    out = []
    for i, form in enumerate(FORMS):
        for index in (False, True) if "search" in form else (False,):
            out.append((f"text {form} {index}", {"form": form, "regex": False, "index": index}))
            out.append((f"regex {form} {index}", {"form": form, "regex": True, "index": index}))
    for how in ("grep", "grep stdin", "rg", "search", "search index", "api", "api index"):
        for regex in (False, True):
            out.append((f"letters {how} {regex}", {"form": "letters " + how, "regex": regex, "index": "index" in how}))
    for how in ("grep", "grep stdin", "rg", "search", "search index", "api", "api index", "wide"):
        out.append((f"breaks {how}", {"form": "breaks " + how, "regex": False, "index": "index" in how}))
    out.append(("api", {"form": "api", "regex": False, "index": False}))
    out.append(("api index", {"form": "api", "regex": False, "index": True}))
    return out


def low(s):
    return "".join("x" if c == "X" else c for c in s)


def hit(line, pat, regex, ic):
    if ic:
        line, pat = low(line), low(pat)
    if not regex:
        return any(line[i:i + len(pat)] == pat for i in range(len(line) - len(pat) + 1))
    x = "x"
    n = len(line)
    if pat == "x":
        return any(c == x for c in line)
    if pat == "^x":
        return line[:1] == x
    if pat == "x$":
        return n > 0 and line[n - 1] == x
    if pat == "x.":
        return any(line[i] == x for i in range(n - 1))
    if pat == "x|y":
        return any(c == x or c == "y" for c in line)
    if pat == "[^x]":
        return any(c != x for c in line)
    if pat == "^x?y$":
        return line == "y" or line == "xy"
    if pat in ("xX", "xx"):
        return any(line[i:i + 2] == pat for i in range(n - 1))
    if pat == "(x)y*$":
        i = n
        while i > 0 and line[i - 1] == "y":
            i -= 1
        return i > 0 and line[i - 1] == x
    if pat == "\\D":
        return n > 0
    if pat == "\\Sy":
        return any(line[i] == "y" and line[i - 1] != " " for i in range(1, n))
    if pat == "^$":
        return n == 0
    if pat == "x*":
        return True
    raise ValueError(pat)


def lines_of(text):
    out, cur = [], ""
    i = 0
    while i < len(text):
        c = text[i]
        if c == "\r" and i + 1 < len(text) and text[i + 1] == "\n":
            i += 1
            c = "\n"
        if c == "\n" or c == "\r":
            out.append(cur)
            cur = ""
        else:
            cur = cur + c
        i += 1
    if len(cur):
        out.append(cur)
    return out


SPECIAL = "\u00df\u1e9e\u03c3\u03a3\u03c2\u0130\u0131\ufb01\u212a\u017fkS"
PAIRS = {"\u00e9": "\u00c9", "\u044f": "\u042f", "\u03b2": "\u0392", "k": "K", "\u0101": "\u0100"}


def unusual(S, how, regex, index):
    """Ignoring case never loses a line that contains the pattern itself, whatever letters there are."""
    if S.flag("pair"):
        small = S.choice("small", sorted(PAIRS))
        pat, inside = (small, PAIRS[small]) if S.flag("up") else (PAIRS[small], small)
        ic = S.flag("ic")
        want = ic
    else:
        pat = S.str("pat", 0, 2 if how in ("grep", "api") else 1, alphabet=SPECIAL)
        inside = pat
        ic = S.flag("ic")
        want = True
    line = S.str("pre", 0, 1, alphabet="\u0391x ") + inside + S.str("post", 0, 1, alphabet="\u03b1. ")
    S.assume(len(line) > 0)
    S.assume(len(pat) > 0 or "search" not in how)
    vfs = S.sandfs.VirtualFileSystem()
    vfs.write_file("/f", "1\n" + line)
    if index:
        vfs.enable_full_text_index()
    if "api" in how:
        got = [(str(r.path), r.line_no, r.line_text) for r in vfs.search(S.mod("search").SearchQuery(query=pat, regex=regex, ignore_case=ic))]
        found = any(n == 2 and S.eq(x, line) for p, n, x in got)
        other = any(n == 1 for p, n, x in got)
    else:
        opts = ("-i " if ic else "") + ("-e " if regex else "")
        cmd = {"grep": "grep -n {} /f", "grep stdin": "cat /f | grep -n {}", "rg": "rg -n {} /f", "search": "search {} /f", "search index": "search {} /"}[how]
        r = S.sandfs.SandboxShell(vfs).exec(cmd.replace("{}", opts + "'" + pat + "'"))
        S.check(r.exit_code == 0 and r.stderr == "", "the command succeeds")
        pre = "" if "stdin" in how else "/f:"
        got = r.stdout.split("\n")
        found = any(S.eq(x, pre + "2:" + line) for x in got)
        other = any(S.eq(x, pre + "1:1") for x in got)
    S.check(found == want, "a line containing the pattern is found, with or without regard to case" if want else "case matters unless it is ignored")
    S.check(other == (len(pat) == 0), "other lines are not")
    S.cover("some")


BREAKS = "\n\r\x0b\x0c\x1c\x85\u2028"


def breaks(S, how, index):
    """Every way of searching sees the same lines, whatever control characters a text holds."""
    text = "x" + S.str("a", 1, 2, alphabet=BREAKS + " ") + "y" + S.str("b", 0, 1, alphabet=BREAKS) + S.str("c", 0, 1, alphabet="x\u00a0\x00")
    vfs = S.sandfs.VirtualFileSystem()
    vfs.write_file("/f", text)
    ref = [(r.line_no, r.line_text) for r in vfs.search(S.mod("search").SearchQuery(query="", regex=True))]
    kept = "".join(t for _, t in ref)
    S.check([n for n, _ in ref] == list(range(1, len(ref) + 1)), "lines are numbered from one, without gaps")
    plain = [c for c in text if c not in BREAKS]
    S.check(S.eq([c for c in kept if c not in BREAKS], plain), "everything but line ends is in some line")
    S.check(S.all(["\n" not in t and "\r" not in t for _, t in ref]), "line ends are in none")
    if index:
        vfs.enable_full_text_index()
    pat = S.choice("pat", ["x", "y", " "])
    want = [(n, t) for n, t in ref if pat in t]
    S.cover("some" if want else "none")
    if "api" in how:
        got = [(r.line_no, r.line_text) for r in vfs.search(S.mod("search").SearchQuery(query=pat))]
        S.check(S.eq(got, want), "a search reports exactly the matching lines")
        return
    cmd = {"grep": "grep -n '{}' /f", "grep stdin": "cat /f | grep -n '{}'", "rg": "rg -n '{}' /f", "search": "search '{}' /f", "search index": "search '{}' /", "wide": "grep -n -r '{}' /"}[how]
    r = S.sandfs.SandboxShell(vfs).exec(cmd.replace("{}", pat))
    pre = "" if "stdin" in how else "/f:"
    S.check(r.exit_code == 0 and r.stdout == "\n".join([pre + str(n) + ":" + t for n, t in want]), "exactly the matching lines are printed")


def run(S, form, regex, index):
    if form.startswith("breaks "):
        return breaks(S, form[7:], index)
    if form.startswith("letters "):
        return unusual(S, form[8:], regex, index)
    letters = "xXy\n\r" if S.thorough and not regex else "xXy\n"
    text = S.str("text", 0, 4 if S.thorough else 3 if form in ("grep {o} {p} /f", "api", "cat /f | grep {o} {p}") else 2, alphabet=letters)
    if regex:
        pat = S.choice("pat", REGEX)
    else:
        pat = S.str("pat", 1, 2 if S.thorough or len(text) < 3 else 1, alphabet="xXy")
    ic = S.flag("ic")
    num = S.flag("num")
    vfs = S.sandfs.VirtualFileSystem()
    vfs.write_file("/f", text)
    for p, t in FIXED.items():
        vfs.write_file(p, t)
    vfs.mkdir("/d/empty")
    if index:
        vfs.enable_full_text_index()
    every = dict(FIXED)
    every["/f"] = text
    if form in ("api", "search {o} {p}", "grep -R {o} {p} /") and S.flag("view"):
        vfs.enable_search_view()
        for p in ("/@searches/k", "/@search.txt", "/d/@search"):
            every[p] = "x"
            vfs.write_file(p, "x")
    if form == "api":
        pre = S.choice("pre", [None, "/f", "/d", "/d/e"])
        res = vfs.search(S.mod("search").SearchQuery(query=pat, regex=regex, ignore_case=ic, path_prefix=S.pathlib.PurePosixPath(pre) if pre else None))
        got = [(str(r.path), r.line_no, r.line_text) for r in res]
        want = expect(every, [p for p in every if pre is None or p == pre or p.startswith(pre + "/")], pat, regex, ic)
        S.check(S.eq(sorted(got), sorted(want)), "a search reports exactly the matching lines, with path, number and text")
        S.cover("some" if want else "none")
        return
    sh = S.sandfs.SandboxShell(vfs)
    quoted = "'" + pat + "'"
    opts = ("-i " if ic else "") + ("-e " if regex else "")
    if "search" in form:
        opts += "" if num else "--no-line-number "
    else:
        opts += "-n " if num else ""
    r = sh.exec(form.replace("{o} ", opts).replace("{p}", quoted))
    S.check(r.exit_code == 0 and r.stderr == "", "the command succeeds")
    files = FORMS[form]
    if len(every) > 5:
        files = list(every)
    if files is None:
        want = [(str(n) + ":" if num else "") + line for p, n, line in expect(every, ["/f"], pat, regex, ic)]
    else:
        want = [p + ":" + (str(n) + ":" if num else "") + line for p, n, line in expect(every, files, pat, regex, ic)]
    S.cover("some" if want else "none")
    if len(want) == 0:
        S.check(r.stdout == "", "nothing is printed when nothing matches")
        return
    got = r.stdout.split("\n")
    S.check(len(got) == len(want), "one output line per matching line")
    S.check(S.eq(sorted(got), sorted(want)), "exactly the matching lines are printed, with their path and number")
    if files is None or len(files) == 1 or "/f /g" in form or "/d/e /f" in form:
        S.check(S.eq(got, want), "in the order of the file and of the operands")
    else:
        for p in files:
            S.check(S.eq([g for g in got if g.startswith(p + ":")], [w for w in want if w.startswith(p + ":")]), "the lines of each file in order")


def expect(every, files, pat, regex, ic):
    return [(p, n + 1, line) for p in files for n, line in enumerate(lines_of(every[p])) if hit(line, pat, regex, ic)]
