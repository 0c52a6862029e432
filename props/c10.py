BOUNDS = ("nodes with a symbolic classification (1 letter; or up to 3 characters over 6, against labels of up to 2), 0-2 symbolic principals, paths among 6 nested ones, 0-1 metadata entries with "
          "symbolic values; views with 0-2 symbolic classifications or unrestricted, 0-2 symbolic principals or none, 0-2 symbolic path "
          "prefixes of up to 4 (thorough 5) characters, 0-2 metadata filters; and, for each such decision, what cat, stat, head, wc, grep, ls, find, "
          "tree, glob expansion, search and redirection make of it")
BUDGET = {"quick": 200, "thorough": 700}
COVERS = ("visible", "hidden")

NODES = ["/a", "/a/b", "/ab", "/a/b/a", "/b"]
USES = ["cat", "stat", "head", "wc", "grep", "ls", "find", "tree", "glob", "search", "redirect", "rg", "index", "lsfile"]


def cases(tier):
    out = []
    for c in ("none", "0", "1", "2"):
        for p in ("none", "0", "1", "2"):
            out.append((f"labels c={c} p={p}", {"kind": "labels", "c": c, "p": p}))
    for c in ("1", "2", "none"):
        out.append((f"words c={c}", {"kind": "words", "c": c}))
    for node in NODES:
        for k in (1, 2) if tier == "thorough" else (1,):
            out.append((f"prefix {node} {k}", {"kind": "prefix", "node": node, "k": k, "n": 4}))
        out.append((f"prefixes {node}", {"kind": "prefix", "node": node, "k": 2, "n": 2}))
        out.append((f"noprefix {node}", {"kind": "prefix", "node": node, "k": 0, "n": 2}))
    out.append(("meta kinds", {"kind": "kinds"}))
    for k in (0, 1, 2):
        out.append((f"meta {k}", {"kind": "meta", "k": k}))
    for use in USES:
        for mode in ("class", "principal", "prefix", "meta", "mixed"):
            out.append((f"use {use} {mode}", {"kind": "use", "use": use, "mode": mode}))
    return out


def label_spec(S, cl, principals, vc, vp):
    """principals win over classifications; None means unrestricted / no principal."""
    if principals:
        return S.any([a == b for a in principals for b in (vp or [])])
    if vc is None:
        return True
    return S.any([cl == c for c in vc])


def under_or_above(path, prefix):
    """prefix is a component-wise prefix of path or the other way round"""
    a = [x for x in path.split("/") if x]
    b = [x for x in prefix.split("/") if x]
    n = min(len(a), len(b))
    return all(a[i] == b[i] for i in range(n))


def node_at(S, path, cl="public", principals=(), meta=None):
    vfs = S.sandfs.VirtualFileSystem()
    node = vfs.write_file(path, "x text\n")
    vfs.set_policy(path, S.sandfs.NodePolicy(classification=cl, principals=set(principals)))
    for k, v in (meta or {}).items():
        node.metadata[k] = v
    return vfs, node


def run(S, kind, c=None, p=None, node=None, k=0, n=0, use=None, mode=None):
    View = S.sandfs.VisibilityView
    if kind == "labels":
        cl = S.str("cl", 1, 1, alphabet="pqr")
        np = S.pick("np", 3)
        princ = [S.str("pr%d" % i, 1, 1, alphabet="uvw") for i in range(np)]
        vc = None if c == "none" else [S.str("vc%d" % i, 1, 1, alphabet="pqr") for i in range(int(c))]
        vp = None if p == "none" else [S.str("vp%d" % i, 1, 1, alphabet="uvw") for i in range(int(p))]
        view = View(classifications=vc, principals=vp)
        vfs, nd = node_at(S, "/a", cl, princ)
        want = label_spec(S, cl, princ, vc, vp)
        got = view.allows_node(nd)
        S.cover("visible" if got else "hidden")
        S.check(S.iff(got, want), "a node is visible exactly when its principals, or else its classification, admit the view")
        S.check(S.iff(view.allows(nd.policy), want), "the policy alone gives the same answer")
        return
    if kind == "words":
        letters = "pP-.* "
        if c == "none":
            cl, vc = "p", None
            princ = [S.str("pr", 1, 3, alphabet=letters)]
            vp = [S.str("vp%d" % i, 1, 2, alphabet=letters) for i in range(2)]
        else:
            cl, princ, vp = S.str("cl", 0, 3, alphabet=letters), [], None
            vc = [S.str("vc%d" % i, 0, 2, alphabet=letters) for i in range(int(c))]
        view = View(classifications=vc, principals=vp)
        vfs, nd = node_at(S, "/a", cl, princ)
        want = label_spec(S, cl, princ, vc, vp)
        got = view.allows_node(nd)
        S.cover("visible" if got else "hidden")
        S.check(S.iff(got, want), "labels are compared as a whole")
        return
    if kind == "prefix":
        vfs, nd = node_at(S, node)
        pres = ["/" + S.str("pre%d" % i, 0, n, alphabet="/ab") for i in range(k)]
        for q in pres:
            S.assume(q[1:2] != "/")      # POSIX gives a leading // a meaning of its own
        view = View(path_prefixes=pres)
        got = view.allows_node(nd)
        want = any(under_or_above(node, q) for q in pres)
        S.cover("visible" if got else "hidden")
        S.check(got == want, "a node is visible exactly when it lies below, at or above a prefix")
        par = nd.parent
        if par is not None:
            S.check(view.allows_node(par) == any(under_or_above(str(par.path()), q) for q in pres), "directories likewise")
        return
    if kind == "kinds":
        values = [None, True, False, 1, 0, "", "1", "a", [], ["a"], ("a",), {}, 1.0]
        i, j = S.pick("i", len(values) + 1), S.pick("j", len(values))
        vfs, nd = node_at(S, "/a", meta={"k": values[i]} if i < len(values) else {})
        got = View(metadata_filters={"k": values[j]}).allows_node(nd)
        if i < len(values):
            S.check(bool(got) == (values[i] == values[j]), "metadata values of every kind are compared as they are")
        elif values[j] is not None:
            S.check(not got, "a missing entry matches no value")
        S.cover("visible" if got else "hidden")
        return
    if kind == "meta":
        have = S.pick("have", 3)
        meta = {"k%d" % i: S.int("m%d" % i, 0, 2) for i in range(have)}
        filt = {"k%d" % i: S.int("f%d" % i, 0, 2) for i in range(k)}
        vfs, nd = node_at(S, "/a", meta=meta)
        view = View(metadata_filters=filt)
        got = view.allows_node(nd)
        want = S.all([meta[q] == v if q in meta else False for q, v in filt.items()])
        S.cover("visible" if got else "hidden")
        S.check(S.iff(got, want), "a node is visible exactly when every metadata filter matches")
        return
    consistent(S, use, mode)


def consistent(S, use, mode):
    """Each command shows the file exactly when the view admits it."""
    View = S.sandfs.VisibilityView
    vfs = S.sandfs.VirtualFileSystem()
    node = vfs.write_file("/d/f", "needle\n")
    vfs.write_file("/d/v", "other\n")
    vfs.get_node("/d/v").metadata["m"] = 1
    vfs.get_node("/d").metadata["m"] = 1
    if mode in ("class", "mixed"):
        vfs.set_policy("/d/f", S.sandfs.NodePolicy(classification=S.str("cl", 1, 1, alphabet="pq"),
                                                   principals={S.str("pr", 1, 1, alphabet="uv")} if mode == "mixed" and S.flag("hasp") else set()))
        vfs.set_policy("/d/v", S.sandfs.NodePolicy(classification="p"))
        vfs.set_policy("/d", S.sandfs.NodePolicy(classification="p"))
        vfs.root.policy.classification = "p"
        view = View(classifications=["p"], principals=["u"] if mode == "mixed" and S.flag("vp") else None)
    elif mode == "principal":
        vfs.set_policy("/d/f", S.sandfs.NodePolicy(principals={S.str("pr", 1, 1, alphabet="uv")}))
        view = View(principals=["u"] if S.flag("vp") else None)
    elif mode == "prefix":
        view = View(path_prefixes=["/d/" + S.str("pre", 1, 1, alphabet="fv")])
    else:
        node.metadata["m"] = S.int("m", 1, 2)
        vfs.root.metadata["m"] = 1
        view = View(metadata_filters={"m": 1})
    visible = view.allows_node(node)
    S.cover("visible" if visible else "hidden")
    if use == "index":
        vfs.enable_full_text_index()
    sh = S.sandfs.SandboxShell(vfs, view=view)
    if use in ("cat", "stat", "head", "wc", "lsfile"):
        r = sh.exec(("ls" if use == "lsfile" else use) + " /d/f")
        S.check((r.exit_code == 0) == visible, use + " opens exactly the visible files")
        if use in ("cat", "head") and visible:
            S.check(r.stdout == "needle\n", "and shows their text")
    elif use == "grep":
        r = sh.exec("grep needle /d/f")
        S.check((r.stdout == "/d/f:needle") == visible, "grep reads exactly the visible files")
    elif use == "redirect":
        r = sh.exec("cat < /d/f")
        S.check((r.stdout == "needle\n") == visible, "redirection reads exactly the visible files")
    elif use in ("rg", "search", "index"):
        r = sh.exec("rg needle /d" if use == "rg" else "search needle /d")
        S.check(("needle" in r.stdout) == visible, "recursive searches report exactly the visible files")
    elif use == "ls":
        names = sh.exec("ls /d").stdout.split()
        S.check(("f" in names) == visible, "ls lists exactly the visible entries")
        S.check([e.name for e in vfs.ls("/d", view=view)] == names, "the API lists the same")
    elif use == "find":
        lines = sh.exec("find /d").stdout.split("\n")
        S.check(("/d/f" in lines) == visible, "find reports exactly the visible entries")
    elif use == "tree":
        out = sh.exec("tree /d").stdout
        S.check(("── f" in out) == visible, "tree draws exactly the visible entries")
    elif use == "glob":
        words = sh.exec("echo /d/* /d/?").stdout.split()
        S.check(("/d/f" in words) == visible, "patterns expand to exactly the visible entries")
        sh.exec("cd /d")
        S.check(("/d/f" in sh.exec("echo *").stdout.split()) == visible, "relative patterns too")
