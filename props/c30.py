BOUNDS = ("a file with an arbitrary text of up to 3 characters over x, X, y and newline next to 5 fixed files; queries of 1-2 characters over the same letters and 6 fixed ones (regular expression, ignoring case, "
          "restricted to a path, percent-encoded, without match); asked through ls, cat, find, tree, grep -r, head, wc and input redirection, once or after another query, a change of the file, a removal, "
          "or a query by a shell with another view; with and without index, default and nested location; queries and paths of 1-3 characters over 12 with every character percent-encoded; 9 values of the two options in 3 ways of writing and every order; 11 spellings of the search path from 4 working directories with 6 spellings of the result file; 18 attempts to modify results")
ASSUMPTIONS = ["queries combining path= with a file below the result directory are not specified (the syntax is ambiguous)", "files below the view seen without a query show what the shell's last query found"]
BUDGET = {"quick": 200, "thorough": 700}
COVERS = ("found", "nothing")

QUERIES = ["SYM", "SYM&ignore_case=1", "SYM&regex=1", "%5Ex&regex=1", "x.&regex=1&ignore_case=true", "x&path=/d", "x&path=/d/f", "x&path=/nowhere", "zz", "x%79", "y+x"]
BETWEEN = ["nothing", "other query", "change", "remove", "other view", "append", "move", "restore", "plain", "cd"]


def cases(tier):
    out = []
    for q in QUERIES:
        for b in (BETWEEN if tier == "thorough" or q in ("SYM", "x&path=/d") else ["nothing", "other query", "change"]):
            out.append((f"query {q} {b}", {"kind": "query", "q": q, "between": b}))
    out += [(k, {"kind": k, "q": "", "between": ""}) for k in ("readonly", "location", "hides", "noself", "encoded", "encoded path", "options", "spelling")]
    return out


def split_lines(t):
    out, cur = [], ""
    for c in t:
        if c == "\n":
            out.append(cur)
            cur = ""
        else:
            cur += c
    if cur != "":
        out.append(cur)
    return out


FIXED = {"/d/g": "x\nyx\n", "/e/x": "Xx", "/top": "y x\nxy\n", "/d/n/k": "none", "/d/f2": "yy"}


def decide(q, pat):
    """(line predicate, path prefix)"""
    if q == "SYM":
        return (lambda l: pat in l), None
    if q == "SYM&ignore_case=1":
        return (lambda l: lower(pat) in lower(l)), None
    if q == "SYM&regex=1":
        return (lambda l: pat in l), None
    if q == "%5Ex&regex=1":
        return (lambda l: l[:1] == "x"), None
    if q.startswith("x."):
        return (lambda l: any(c in "xX" for c in l[:-1])), None
    if q.startswith("x&path="):
        return (lambda l: "x" in l), q[7:]
    if q == "x%79":
        return (lambda l: "xy" in l), None
    if q == "y+x":
        return (lambda l: "y x" in l), None
    return (lambda l: q in l), None


def lower(s):
    out = ""
    for c in s:
        out += "x" if c == "X" else "n" if c == "N" else c
    return out


def results(files, q, pat):
    ok, prefix = decide(q, pat)
    out = {}
    for p in files:
        if prefix and not (p == prefix or p.startswith(prefix + "/")):
            continue
        lines = [p + ":" + str(i + 1) + ":" + l for i, l in enumerate(split_lines(files[p])) if ok(l)]
        if lines:
            out[p] = "\n".join(lines)
    return out


def make(S, base="/@search", index=False):
    vfs = S.sandfs.VirtualFileSystem()
    t = S.str("t", 0, 3 if S.thorough else 2, alphabet="xXy\n")
    files = dict(FIXED)
    files["/d/f"] = t
    for p in sorted(files):
        vfs.write_file(p, files[p])
    if index:
        vfs.enable_full_text_index()
    vfs.enable_search_view(base)
    return vfs, files


def ask(S, sh, base, q, pat, files):
    url = base + "?q=" + q.replace("SYM", pat)
    want = results(files, q, pat)
    S.cover("found" if want else "nothing")
    got = []
    r = sh.exec("find '" + url + "' -type f")
    S.check(r.exit_code == 0, "results can be listed")
    got = r.stdout.split("\n") if r.stdout else []
    S.check(S.eq(sorted(got), sorted(base + p for p in want)), "there is one result file for each file with a match, and no other")
    r = sh.exec("ls '" + url + "'")
    tops = sorted(set(p.split("/")[1] for p in want))
    S.check(r.exit_code == 0 and sorted(w.rstrip("/") for w in r.stdout.split()) == tops, "listing shows the directories holding results")
    if "path=" not in q:
        for p in sorted(want):
            for cmd in ("cat '{}'", "head -n 99 '{}'", "cat < '{}'")[:3 if p == "/d/g" else 1]:
                r = sh.exec(cmd.format(url + p))
                S.check(r.exit_code == 0 and r.stdout == want[p], "a result file lists exactly the matching lines with path and line number")
        for p in sorted(files):
            if p not in want:
                r = sh.exec("cat '" + url + p + "'")
                S.check(r.exit_code != 0 and r.stdout == "", "a file without match has no result file")
    return want


CODED = "%20+ &=?#/x\u00e9"


def code(t):
    out = ""
    for c in t:
        for k in CODED:
            if c == k:
                out += "%C3%A9" if k == "\u00e9" else "%%%02X" % ord(k)
                break
    return out


def encoded(S, inpath):
    """Every character of a query or of a path can be given percent-encoded, and is decoded once."""
    pat = S.choice("head", ["", "%", "%2", "x%"]) + S.str("pat", 1, 2 if S.thorough else 1, alphabet=CODED if not inpath else CODED.replace("/", ""))
    vfs = S.sandfs.VirtualFileSystem()
    sh = S.sandfs.SandboxShell(vfs)
    if inpath:
        vfs.write_file("/t/k", "x")
        vfs.write_file("/" + pat + "/f", "x")
        q, want, text = "x&path=%2F" + code(pat), ["/" + pat + "/f"], "x"
    else:
        vfs.write_file("/t", pat)
        vfs.write_file("/u", "-")
        q, want, text = code(pat), ["/t"], pat
    vfs.enable_search_view()
    r = sh.exec("find '/@search?q=" + q + "' -type f")
    S.check(r.exit_code == 0 and S.eq(r.stdout, "/@search" + want[0]), "there is one result file for each file with a match, and no other")
    if not inpath:
        r = sh.exec("cat '/@search?q=" + q + "/t'")
        S.check(r.exit_code == 0 and S.eq(r.stdout, "/t:1:" + text), "a result file lists exactly the matching lines with path and line number")
    S.cover("found")


def options(S):
    """Options are on for 1, true, yes and on in any case, and off otherwise."""
    vfs = S.sandfs.VirtualFileSystem()
    vfs.write_file("/a", "HELLO")
    vfs.write_file("/b", "hello")
    vfs.write_file("/c", "h.llo")
    vfs.enable_search_view()
    sh = S.sandfs.SandboxShell(vfs)
    on = {"1": True, "true": True, "yes": True, "on": True, "0": False, "false": False, "no": False, "off": False, "": False}
    vals = []
    for k in ("ic", "re"):
        w = S.choice(k, sorted(on))
        style = S.choice(k + "style", ["as is", "upper", "first"])
        vals.append((on[w], w if style == "as is" else w.upper() if style == "upper" else w[:1].upper() + w[1:]))
    given = ["ignore_case=" + vals[0][1], "regex=" + vals[1][1]]
    if S.flag("swap"):
        given.reverse()
    url = "/@search?" + "&".join(["q=h.llo"] + given if not S.flag("last") else given + ["q=h.llo"])
    ic, re = vals[0][0], vals[1][0]
    want = ["/c"] + (["/b"] if re else []) + (["/a"] if re and ic else [])
    r = sh.exec("find '" + url + "' -type f")
    S.check(r.exit_code == 0 and sorted(r.stdout.split()) == sorted("/@search" + p for p in want), "there is one result file for each file with a match, and no other")
    for p in ("/a", "/b", "/c"):
        r = sh.exec("cat '" + url + p + "'")
        if p in want:
            S.check(r.exit_code == 0 and r.stdout == p + ":1:" + vfs.read_file(p), "a result file lists exactly the matching lines with path and line number")
        else:
            S.check(r.exit_code != 0 and r.stdout == "", "a file without match has no result file")
    S.cover("found")


def spelling(S):
    """A search path may be written in any way that denotes its place."""
    vfs = S.sandfs.VirtualFileSystem()
    files = {"/d/g": "x\nyx\n", "/d/n/k": "none", "/t": S.choice("t", ["x", "y"])}
    for p in sorted(files):
        vfs.write_file(p, files[p])
    vfs.enable_search_view()
    sh = S.sandfs.SandboxShell(vfs)
    cwd = S.choice("cwd", ["/", "/d", "/d/n", "/@search"])
    sh.exec("cd " + cwd)
    up = {"/": "", "/d": "../", "/d/n": "../../", "/@search": "../"}[cwd]
    head = S.choice("head", ["/@search", "//@search", "/./@search", "/d/../@search", "/../@search", "/@search/", "/@search/.", "/d/n/../../@search", up + "@search", "./" + up + "@search", up + "./@search/"])
    want = results(files, "SYM", "x")
    S.cover("found" if want else "nothing")
    p = S.choice("p", ["/d/g", "/t", "/d/n/k"])
    url = head + "?q=x"
    for nav in ("", "/", "//", "/."):
        r = sh.exec("find '" + url + nav + "' -type f")
        S.check(r.exit_code == 0 and S.eq(sorted(r.stdout.split("\n") if r.stdout else []), sorted("/@search" + k for k in want)), "there is one result file for each file with a match, and no other")
    for nav in (p, "/" + p, "/." + p, "/d/.." + p, p + "/", p.replace("/", "//")) if p in want else (p, "/" + p):
        for cmd in ("cat '{}'", "cat < '{}'", "wc -l '{}'")[:3 if p == "/d/g" else 2]:
            r = sh.exec(cmd.format(url + nav))
            if p not in want:
                S.check(r.exit_code != 0 and r.stdout == "", "a file without match has no result file")
            elif cmd.startswith("wc"):
                S.check(r.exit_code == 0 and r.stdout.split()[0] == str(len(want[p].split("\n"))), "a result file lists exactly the matching lines with path and line number")
            else:
                S.check(r.exit_code == 0 and r.stdout == want[p], "a result file lists exactly the matching lines with path and line number")
    for cmd in ("write '{}/d/g' new", "rm -r '{}'", "touch '{}/n'", "mkdir '{}/n'", "cp '{}/d/g' /copy", "mv '{}/d' /moved", "echo new > '{}/d/g'"):
        r = sh.exec(cmd.format(url))
        S.check(r.exit_code != 0 and r.stderr != "", "results of a query cannot be modified, moved or copied")
    got = {str(k): n.read(vfs) for k, n in vfs.walk("/") if not hasattr(n, "children") and not str(k).startswith("/@search")}
    S.check(S.eq(sorted(got.items()), sorted(files.items())), "nothing else changed")


def run(S, kind, q, between):
    if kind == "spelling":
        return spelling(S)
    if kind == "options":
        return options(S)
    if kind.startswith("encoded"):
        return encoded(S, kind == "encoded path")
    if kind == "query":
        index = S.flag("index")
        vfs, files = make(S, index=index)
        base = "/@search"
        pat = ""
        if "SYM" in q:
            pat = S.str("pat", 1, 2 if S.thorough else 1, alphabet="xXy")
        sh = S.sandfs.SandboxShell(vfs)
        if between == "other query":
            ask(S, sh, base, "zz" if q != "zz" else "x%79", "", files)
        elif between != "nothing":
            sh.exec("ls '/@search?q=y'")
            sh.exec("cat '/@search?q=x'/d/g")
            if S.flag("same"):
                sh.exec("cat '" + base + "?q=" + q.replace("SYM", pat) + "'/d/g")
                sh.exec("ls '" + base + "?q=" + q.replace("SYM", pat) + "'")
            if between == "change":
                vfs.write_file("/d/f", "xX\nx")
                files["/d/f"] = "xX\nx"
            elif between == "append":
                sh.exec("append /d/f y")
                files["/d/f"] = files["/d/f"] + "y"
            elif between == "remove":
                vfs.remove("/d/g")
                del files["/d/g"]
            elif between == "move":
                vfs.move("/d/f", "/e/moved")
                files["/e/moved"] = files.pop("/d/f")
            elif between == "other view":
                other = S.sandfs.SandboxShell(vfs, view=S.sandfs.VisibilityView(path_prefixes=["/e", "/@search"]))
                other.exec("ls '/@search?q=x'")
                other.exec("find '/@search?q=X'")
            elif between == "restore":
                snap = vfs.snapshot()
                vfs.write_file("/d/f", "other")
                vfs.restore(snap)
            elif between == "plain":
                sh.exec("ls /@search")
                sh.exec("find /")
                vfs.read_file("/top")
            else:
                sh.exec("cd '/@search?q=x'/d")
        ask(S, sh, base, q, pat, files)
        if between == "nothing" and q == "SYM":
            ask(S, sh, base, q, pat, files)
        for p in sorted(files):
            S.check(vfs.read_file(p) == files[p], "searching does not change the files")
        return
    if kind == "location":
        base = S.choice("base", ["/find", "/a/b", "/d/q"])
        vfs, files = make(S, base)
        sh = S.sandfs.SandboxShell(vfs)
        ask(S, sh, base, "SYM", "x", files)
        r = sh.exec("ls '/@search?q=x'")
        S.check(r.exit_code != 0, "only the configured place is a search view")
        return
    if kind == "noself":
        vfs, files = make(S, index=S.flag("index"))
        sh = S.sandfs.SandboxShell(vfs)
        sh.exec("ls '/@search?q=x'")
        r = sh.exec("search --no-line-number x /")
        S.check("/@search" not in r.stdout, "result files are not searched themselves")
        n = len(vfs.search(S.mod("search").SearchQuery(query="x")))
        S.check(n == sum(len(v.split("\n")) for v in results(files, "SYM", "x").values()), "searching finds the same with and without results present")
        S.cover("found")
        return
    if kind == "hides":
        vfs, files = make(S, index=S.flag("index"))
        P, V = S.sandfs.NodePolicy, S.sandfs.VisibilityView
        hidden = S.choice("hidden", ["/d/f", "/top", "/d/g"])
        unread = S.flag("unread")
        vfs.set_policy(hidden, P(readable=False) if unread else P(classification="secret"))
        sh = S.sandfs.SandboxShell(vfs, view=None if unread else V(classifications=["public"]))
        rest = {p: files[p] for p in files if p != hidden}
        ask(S, sh, "/@search", "SYM", "x", rest)
        if not unread:
            ask(S, S.sandfs.SandboxShell(vfs), "/@search", "SYM", "x", files)
            ask(S, sh, "/@search", "SYM", "x", rest)
        return
    vfs, files = make(S)
    sh = S.sandfs.SandboxShell(vfs)
    for cmd in ("write '/@search?q=x/d/g' new", "append '/@search?q=x/d/g' new", "echo new > '/@search?q=x/d/g'", "echo new >> '/@search?q=x/d/g'", "touch '/@search?q=x/d/g'", "touch '/@search?q=x/new'",
                "mkdir '/@search?q=x/new'", "mkdir -p '/@search?q=x/new/deep'", "rm '/@search?q=x/d/g'", "rm -r '/@search?q=x'", "rm -r '/@search?q=x/d'", "cp /top '/@search?q=x/d/g'", "cp '/@search?q=x/d/g' /copy",
                "mv /top '/@search?q=x/d/top'", "mv '/@search?q=x/d/g' /moved", "mv '/@search?q=x' /moved", "cp -r '/@search?q=x' /copy", "write '/@search?q=x' new"):
        r = sh.exec(cmd)
        S.check(r.exit_code != 0 and r.stderr != "", "results of a query cannot be modified, moved or copied")
    got = {str(p): n.read(vfs) for p, n in vfs.walk("/") if not hasattr(n, "children") and not str(p).startswith("/@search")}
    S.check(S.eq(sorted(got.items()), sorted(files.items())), "nothing else changed")
    ask(S, sh, "/@search", "SYM", "x", files)
