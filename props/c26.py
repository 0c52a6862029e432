BOUNDS = ("trees with 3 entries in the root and 2 in one of them, created in any order, each a file or a directory, with arbitrary distinct names of 1-2 characters over a, b, B, ., - (and [ in the pattern cases); "
          "ls, ls -l, tree, find (with -type and -name), walk, iter_files and pattern expansion from 2 working directories; patterns of up to 3 characters over a, b, *, ?, [, ], ! and 12 fixed path patterns")
ASSUMPTIONS = ["whether * may match a slash inside a path pattern is not specified (all component-wise matches must be there, every result must match with * crossing slashes)"]
BUDGET = {"quick": 200, "thorough": 700}
COVERS = ("listed", "matched", "unmatched")

PATHPATS = ["/*", "/d/*", "d/*", "./*", "../*", "/?", "/*/*", "/d/?a", "*/a*", "/[ab]*", "/d/[!a]*", "../d/*", "/d/../*", "./d/a*"]


def cases(tier):
    out = [(f"tree {''.join(str(int(k)) for k in ks)}", {"kind": "tree", "arg": list(ks)}) for ks in
           [(a, b, c) for a in (False, True) for b in (False, True) for c in (False, True)]]
    for c in "ab*?[":
        out.append((f"pattern {c}", {"kind": "pattern", "arg": c}))
    for p in PATHPATS:
        out.append((f"path {p}", {"kind": "path", "arg": p}))
    out.append(("pattern cwd", {"kind": "odd", "arg": ""}))
    return out


def match(pat, s):
    """Independent shell-pattern matcher."""
    if pat == "":
        return s == ""
    c = pat[0]
    if c == "*":
        for i in range(len(s) + 1):
            if match(pat[1:], s[i:]):
                return True
        return False
    if s == "":
        return False
    if c == "?":
        return match(pat[1:], s[1:])
    if c == "[":
        j = 1
        neg = False
        if j < len(pat) and pat[j] == "!":
            neg = True
            j += 1
        start = j
        if j < len(pat) and pat[j] == "]":
            j += 1
        while j < len(pat) and pat[j] != "]":
            j += 1
        if j < len(pat):
            found = False
            for k in pat[start:j]:
                if k == s[0]:
                    found = True
            if found == neg:
                return False
            return match(pat[j + 1:], s[1:])
    if c != s[0]:
        return False
    return match(pat[1:], s[1:])


def order(items):
    """Directories first, then by name (insertion sort: names may be symbolic)."""
    out = []
    for it in items:
        i = 0
        while i < len(out) and ((out[i][1] and not it[1]) or (out[i][1] == it[1] and out[i][0] < it[0])):
            i += 1
        out.insert(i, it)
    return out


def build(S, kinds, letters, hi=1):
    vfs = S.sandfs.VirtualFileSystem()
    top = []
    for i, isdir in enumerate(kinds):
        n = S.str("n%d" % i, 1, hi if i == 0 else 1, alphabet=letters)
        S.assume(n != "." and n != "..")
        for m, _ in top:
            S.assume(m != n)
        top.append((n, isdir))
    sub = []
    if kinds[0]:
        for i, isdir in enumerate((False, True)):
            n = S.str("m%d" % i, 1, 1, alphabet=letters)
            S.assume(n != "." and n != "..")
            for m, _ in sub:
                S.assume(m != n)
            sub.append((n, isdir))
    tree = {"/": top}
    for n, isdir in top:
        make(vfs, "/" + n, isdir)
    if kinds[0]:
        tree["/" + top[0][0]] = sub
        for n, isdir in sub:
            make(vfs, "/" + top[0][0] + "/" + n, isdir)
    return vfs, top, sub


def make(vfs, path, isdir):
    if isdir:
        vfs.mkdir(path)
    else:
        vfs.write_file(path, "x")


def run(S, kind, arg):
    if kind == "tree":
        return trees(S, arg)
    if kind == "odd":
        vfs = S.sandfs.VirtualFileSystem()
        n = S.str("n", 1, 2, alphabet="[]*?a!")
        vfs.write_file("/" + n + "/s/k", "")
        vfs.write_file("/ab/s/k", "")
        vfs.cd("/" + n)
        S.check(S.eq(vfs.glob("s/*"), ["/" + n + "/s/k"]), "the working directory's name is not part of the pattern")
        S.check(S.eq(vfs.glob("*"), ["/" + n + "/s"]), "the working directory's name is not part of the pattern")
        S.check(S.eq(vfs.glob("../ab/s/*"), ["/ab/s/k"]), "patterns may go up")
        S.cover("matched")
        return
    if kind == "path":
        return paths(S, arg)
    pat = arg + S.str("rest", 0, 2 if not S.thorough else 3, alphabet="ab*?[]!")
    name = S.str("name", 1, 2, alphabet="ab[]")
    vfs = S.sandfs.VirtualFileSystem()
    vfs.mkdir("/w")
    isdir = S.flag("isdir")
    make(vfs, "/w/" + name, isdir)
    vfs.write_file("/o/k", "x")
    vfs.cd("/w")
    want = ["/w/" + name] if match(pat, name) else []
    S.cover("matched" if want else "unmatched")
    S.check(S.eq(vfs.glob(pat), want), "a pattern expands to exactly the matching names")
    S.check(S.eq(vfs.glob(pat, cwd="/w"), want) and S.eq(vfs.glob("/w/" + pat), want), "the same from elsewhere")
    seen = []
    sh = S.sandfs.SandboxShell(vfs)
    sh.register_command("show", lambda args: seen.append(list(args)))
    sh.env["P"] = pat
    sh.exec("show $P")
    special = any(c in "*?[]" for c in pat)
    S.check(S.eq(seen, [(want if special else []) or [pat]]), "the shell passes the matches, or the pattern itself when nothing matches")
    vfs.cd("/o")
    if not (isdir and match(pat, "w")) and (not special or not match(pat, "k")):
        r = sh.exec("find /w -name $P -type " + ("d" if isdir else "f"))
        S.check(r.exit_code == 0 and r.stdout == "".join(want), "find -name uses the same patterns")


def paths(S, pat):
    vfs, top, sub = build(S, (True, False, False), "ab" if not S.thorough else "aBb")
    d = "/" + top[0][0]
    nodes = ["/"] + ["/" + n for n, _ in top] + [d + "/" + n for n, _ in sub]
    vfs.write_file("/d/a", "x")
    vfs.write_file("/d/ba", "x")
    nodes += ["/d", "/d/a", "/d/ba"]
    # resolve the pattern as a path
    cwd = S.choice("cwd", ["/", "/d"])
    vfs.cd(cwd)
    full = pat if pat.startswith("/") else (cwd if cwd != "/" else "") + "/" + pat
    parts = []
    for c in full.split("/"):
        if c == "..":
            parts = parts[:-1]
        elif c not in ("", "."):
            parts.append(c)
    got = vfs.glob(pat)
    must = []
    for n in nodes:
        if n == "/":
            continue
        comps = n[1:].split("/")
        if len(comps) == len(parts) and all(match(p, c) for p, c in zip(parts, comps)):
            must.append(n)
    for n in must:
        S.check(any(n == g for g in got), "every node whose path matches is found")
    for i, g in enumerate(got):
        S.check(any(g == n for n in nodes), "only existing nodes are found")
        S.check(match("/" + "/".join(parts), g), "only matching nodes are found")
        if i:
            S.check(got[i - 1] < g, "matches are sorted and distinct")
    S.cover("matched" if got else "unmatched")


def trees(S, kinds):
    vfs, top, sub = build(S, kinds, "abB-." if not S.thorough else "abB-._\u00e9", 2)
    sh = S.sandfs.SandboxShell(vfs)
    d = "/" + top[0][0]
    S.cover("listed")
    otop, osub = order(top), order(sub)

    def entries(es):
        return [(e.name, e.is_dir, str(e.path)) for e in es]

    def words(items):
        return "  ".join(n + "/" if isdir else n for n, isdir in items)
    want_top = [(n, isdir, "/" + n) for n, isdir in otop]
    want_sub = [(n, isdir, d + "/" + n) for n, isdir in osub]
    S.check(S.eq(entries(vfs.ls("/")), want_top) and S.eq(entries(vfs.ls()), want_top), "ls lists exactly the entries, directories first, by name")
    r = sh.exec("ls")
    S.check(r.exit_code == 0 and r.stdout == words(otop), "the ls command shows the same")
    r = sh.exec("ls -l /")
    S.check(r.stdout == "\n".join(("d " if isdir else "- ") + p for n, isdir, p in want_top), "ls -l shows kind and path")
    if kinds[0]:
        S.check(S.eq(entries(vfs.ls(d)), want_sub), "ls lists a subdirectory")
        sh.env["D"] = d
        S.check(sh.exec("ls $D").stdout == words(osub), "the ls command lists a subdirectory")
        r = sh.exec("ls / $D")
        S.check(r.stdout.count(":") == 2 and words(osub) in r.stdout and words(otop) in r.stdout, "several operands are listed in turn")
        vfs.cd(d)
        S.check(S.eq(entries(vfs.ls()), want_sub), "ls without operand lists the working directory")
        vfs.cd("/")
    else:
        sh.env["D"] = d
        S.check(sh.exec("ls $D").stdout == top[0][0], "ls of a file shows the file")
    # every traversal visits exactly the nodes
    kindof = [("/", True)] + [("/" + n, k) for n, k in top] + [(d + "/" + n, k) for n, k in sub]

    def exactly(got, want, what):
        S.check(len(got) == len(want) and S.all([S.any([g == w for w in want]) for g in got]) and S.all([S.any([g == w for g in got]) for w in want]), what)
    walked = [str(p) for p, _ in vfs.walk("/")]
    exactly(walked, [p for p, _ in kindof], "walk visits every node once")
    for p, n in vfs.walk("/"):
        S.check(p == n.path() and vfs.get_node(p) is n, "walk reports the node at its path")
    found = sh.exec("find /").stdout.split("\n")
    exactly(found, [p for p, _ in kindof], "find lists every node once")
    for seq in (walked, found):
        S.check(seq[0] == "/", "parents come first")
        for p, _ in kindof[1 + len(top):]:
            S.check(seq.index(d) < seq.index(p), "parents come first")
    files = [p for p, k in kindof if not k]
    r = sh.exec("find / -type f").stdout
    exactly(r.split("\n") if r else [], files, "find -type f lists the files")
    exactly(sh.exec("find / -type d").stdout.split("\n"), [p for p, k in kindof if k], "find -type d lists the directories")
    exactly([str(p) for p, _ in vfs.iter_files("/")], files, "iter_files visits every file once")
    exactly([str(p) for p, _ in vfs.iter_files("/", recursive=False)], ["/" + n for n, k in top if not k], "without recursion only the directory's own files")
    sh.env["P"] = top[1][0]
    r = sh.exec("find / -name $P").stdout
    exactly(r.split("\n"), [p for p, _ in kindof if p != "/" and p[p.rfind("/") + 1:] == top[1][0]], "find -name lists the nodes of that name")
    # tree
    rows = vfs.tree("/").split("\n")
    S.check(S.eq(sh.exec("tree").stdout.split("\n"), rows) and rows[0] == "/", "the tree starts with its root")
    want = []
    for n, isdir in otop:
        want.append((1, n + "/" if isdir else n))
        if "/" + n == d:
            for m, k in osub:
                want.append((2, m + "/" if k else m))
    got = []
    for row in rows[1:]:
        i = row.index("\u2500\u2500 ")
        got.append((i // 4 + 1, row[i + 3:]))
    S.check(S.eq(got, want), "the tree shows every node once, nested below its directory, directories first, by name")
