from props.lib import base_of, dump, parent_of, same, subtree, tree_ok, under

BOUNDS = ("one or two moves (API and mv) between all pairs of 11 paths (existing files and directories, missing names, names "
          "below files, trailing spellings) of a tree with 3 levels; 1-character file texts, arbitrary version "
          "numbers (0..5) and policy bits of the moved nodes; index and working directory included; renaming to any name of 1-2 characters over 14; moves between provided directories nobody has looked into yet")
BUDGET = {"quick": 200, "thorough": 700}
COVERS = ("moved", "refused")

PATHS = ["/", "/a", "/a/b", "/a/b/f", "/a/g", "/ab", "/ab/b", "/h", "/n", "/ab/n", "/h/n"]


def cases(tier):
    out = []
    for src in PATHS:
        out.append((f"mv {src}", {"src": src, "how": "api", "n": 1}))
        out.append((f"shell mv {src}", {"src": src, "how": "shell", "n": 1}))
        out.append((f"labels {src}", {"src": src, "how": "labels", "n": 1}))
        if tier == "thorough" or src in ("/a", "/a/b", "/a/b/f", "/ab", "/h"):
            out.append((f"twice {src}", {"src": src, "how": "api", "n": 2}))
        if tier == "thorough":
            out.append((f"thrice {src}", {"src": src, "how": "api", "n": 3}))
    for src in ("/h", "/a", "/a/b"):
        out.append((f"rename {src}", {"src": src, "how": "rename", "n": 1}))
    for src in LAZY:
        out.append((f"lazy {src}", {"src": src, "how": "lazy", "n": 1}))
    return out


LAZY = ["/f", "/g", "/p", "/p/f", "/p/d", "/p/d/g", "/q", "/q/f", "/o"]


def lazy(S, src):
    """Provided directories that nobody has looked into yet."""
    P = S.sandfs.ProvidedNode

    def make():
        vfs = S.sandfs.VirtualFileSystem()
        vfs.write_file("/f", "mine")
        vfs.write_file("/g", "mine too")
        vfs.mount_directory("/p", lambda ctx: {"f": P.file(content="provided"), "d": P.directory(directory_provider=lambda c: {"g": P.file(content="deep")})})
        vfs.mount_directory("/q", lambda ctx: {"f": P.file(content_provider=lambda c: "late"), "p": P.directory(children={})})
        vfs.mount_directory("/o", lambda ctx: {"p": P.directory(children={"f": P.file(content="of")})})
        return vfs
    vfs = make()
    if S.flag("index"):
        vfs.enable_full_text_index()
    for d in ("/p", "/q"):
        if S.flag("seen" + d):
            vfs.ls(d)
    q = S.choice("q", ["/", "/p", "/p/d", "/q", "/o", "/o/p", "/p/f", "/p/n", "/q/n", "/n", "/f"])
    before = dump(make())
    ok, _ = S.attempt(vfs.move, src, q)
    after = dump(vfs)
    tree_ok(S, vfs)
    dest = ("" if q == "/" else q) + "/" + base_of(src) if q in before and before[q][0] == "d" else q
    if not ok:
        S.cover("refused")
        S.check(same(S, before, after), "a refused move changes nothing")
        S.check(not ((dest == src or dest not in before) and parent_of(dest) in before and before[parent_of(dest)][0] == "d" and not under(dest, src)), "a sensible move is carried out")
        return
    S.cover("moved")
    if dest == src:
        S.check(same(S, before, after), "moving a node to where it is changes nothing")
        return
    S.check(dest not in before, "a move never replaces an existing node")
    S.check(not under(dest, src), "a directory is never moved inside itself")
    S.check(S.eq(flat(subtree(before, src)), flat(subtree(after, dest))), "the whole subtree arrives intact")
    S.check(not any(under(k, src) for k in after), "nothing is left at the source")
    S.check(same(S, {k: v for k, v in before.items() if not under(k, src)}, {k: v for k, v in after.items() if not under(k, dest)}), "everything else is untouched")


def rename(S, src):
    """To any other name, in the same directory or in another one."""
    vfs = build(S, ["x", "y", "z"])
    before = dump(vfs)
    moved = vfs.get_node(src)
    name = S.str("name", 1, 2, alphabet="hHaAbB.- ~\u00e9\u00c9\u00df*")
    S.assume(S.neg(S.any([c == "/" for c in name])) and name != "." and name != "..")
    up = S.choice("up", [parent_of(src), "/ab"])
    dest = ("" if up == "/" else up) + "/" + name
    S.assume(S.all([S.neg(S.eq(dest, k)) for k in before]))
    vfs.move(src, dest)
    tree_ok(S, vfs)
    after = dump(vfs)
    S.cover("moved")
    S.check(vfs.exists(dest) and vfs.get_node(dest) is moved and S.eq(moved.name, name), "the node has the new name")
    S.check(not vfs.exists(src), "nothing is left at the source")
    S.check(same(S, {k: v for k, v in before.items() if not under(k, src)}, {k: v for k, v in after.items() if not under(k, dest)}), "everything else is untouched")
    S.check(S.eq(flat(subtree(before, src)), flat(subtree(after, dest))), "the whole subtree arrives intact")
    S.check(S.eq(sorted(e.name for e in vfs.ls(up)), sorted([base_of(k) for k in before if k != "/" and parent_of(k) == up and k != src] + [name])), "the directory lists it under this name")


def build(S, texts):
    vfs = S.sandfs.VirtualFileSystem()
    vfs.write_file("/a/b/f", texts[0])
    vfs.write_file("/a/g", texts[1])
    vfs.write_file("/ab/b", texts[2])
    vfs.write_file("/h", "h")
    vfs.get_node("/a/b").metadata["k"] = "dir meta"
    vfs.get_node("/a/b/f").metadata["k"] = "file meta"
    vfs.set_policy("/a/b/f", S.sandfs.NodePolicy(classification="secret", principals={"p"}))
    return vfs


def run(S, src, how, n):
    if how == "rename":
        return rename(S, src)
    if how == "lazy":
        return lazy(S, src)
    texts = [S.str("t%d" % i, 1, 1, alphabet="xyz") for i in range(3)]
    vfs = build(S, texts)
    vfs.cd(S.choice("cwd", ["/", "/a/b"]))
    if how == "labels":
        # arbitrary policy and version of the moved node
        if vfs.exists(src) and src != "/":
            node = vfs.get_node(src)
            node.version = S.int("ver", 0, 5)
            vfs.set_policy(src, S.sandfs.NodePolicy(readable=S.bool("r"), writable=S.bool("w"), append_only=S.bool("ao"),
                                                    classification=S.choice("cl", ["public", "secret"])))
    idx = vfs.enable_full_text_index()
    for i in range(n):
        p = src if i == 0 else S.choice("p%d" % i, ["/a", "/a/b", "/n", "/ab/n", "/ab/b"])
        q = S.choice("q%d" % i, PATHS)
        before = dump(vfs)
        moved = vfs.get_node(p) if vfs.exists(p) else None
        here = vfs.cwd
        if how == "shell":
            r = S.sandfs.SandboxShell(vfs, view=S.sandfs.VisibilityView(principals={"p"})).exec("mv " + p + " " + q)
            ok = r.exit_code == 0
        else:
            ok, _ = S.attempt(vfs.move, p, q)
        after = dump(vfs)
        S.check(vfs.cwd is here, "the working directory node stays the same")
        tree_ok(S, vfs)
        dest = ("" if q == "/" else q) + "/" + base_of(p) if q in before and before[q][0] == "d" else q
        if not ok:
            S.cover("refused")
            S.check(same(S, before, after), "a refused move changes nothing")
            sensible = (p in before and p != "/" and (dest == p or dest not in before) and parent_of(dest) in before
                        and before[parent_of(dest)][0] == "d" and not under(dest, p))
            if how != "labels":
                S.check(not sensible, "a sensible move is carried out")
            continue
        S.cover("moved")
        S.check(p in before and p != "/", "only existing nodes below the root can be moved")
        if dest == p:
            S.check(same(S, before, after), "moving a node to where it is changes nothing")
            continue
        S.check(dest not in before, "a move never replaces an existing node")
        S.check(not under(dest, p), "a directory is never moved inside itself")
        S.check(S.eq(flat(subtree(before, p)), flat(subtree(after, dest))), "the whole subtree arrives intact")
        S.check(not any(under(k, p) for k in after), "nothing is left at the source")
        rest_b = {k: v for k, v in before.items() if not under(k, p)}
        rest_a = {k: v for k, v in after.items() if not under(k, dest)}
        S.check(same(S, rest_b, rest_a), "everything else is untouched")
        S.check(vfs.get_node(dest) is moved, "the node itself is moved")
        for k, row in after.items():
            if row[0] == "f" and row[3][0]:
                S.check(vfs.read_file(k) == row[1], "files are read at their new place")
    check_index(S, vfs)


def check_index(S, vfs):
    found = sorted(str(r.path) for r in vfs.search(S.mod("search").SearchQuery(query="", regex=False)))
    want = sorted(k for k, row in dump(vfs).items() if row[0] == "f" and nonblank(row[1]) and readable(vfs, k))
    S.check(S.eq(found, want), "the search index follows the move")


def nonblank(t):
    return len(t.splitlines()) > 0


def readable(vfs, p):
    node = vfs.get_node(p)
    while node is not None:
        if not node.policy.readable:
            return False
        node = node.parent
    return True


def flat(d):
    return [(k, d[k]) for k in sorted(d)]
