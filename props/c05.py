from props.lib import base_of, dump, parent_of, same, subtree, tree_ok, under

BOUNDS = ("one copy (API and cp, with and without recursion) between all pairs of 11 paths of a 3-level tree, arbitrary "
          "1-character texts, arbitrary policy bits and versions on source nodes, followed by one arbitrary change "
          "(write, append, remove, metadata, policy) on either side; thorough: two copies in a row; copies between provided directories nobody has looked into yet")
BUDGET = {"quick": 200, "thorough": 700}
COVERS = ("copied", "refused", "replaced")

PATHS = ["/", "/a", "/a/b", "/a/b/f", "/a/g", "/ab", "/ab/b", "/h", "/n", "/ab/n", "/h/n"]


def cases(tier):
    out = []
    for src in PATHS:
        for how in ("api", "shell", "labels", "later"):
            out.append((f"{how} {src}", {"src": src, "how": how}))
        if tier == "thorough":
            out.append((f"again {src}", {"src": src, "how": "again"}))
    for src in ("/f", "/g", "/p", "/p/f", "/p/d", "/q", "/q/f", "/o"):
        out.append((f"lazy {src}", {"src": src, "how": "lazy"}))
    return out


def lazy(S, src):
    """Provided directories that nobody has looked into yet."""
    P = S.sandfs.ProvidedNode

    def make():
        vfs = S.sandfs.VirtualFileSystem()
        vfs.write_file("/f", "mine")
        vfs.write_file("/g", "mine too")
        vfs.mount_file("/g", lambda ctx: "now")
        vfs.mount_directory("/p", lambda ctx: {"f": P.file(content="provided"), "d": P.directory(directory_provider=lambda c: {"g": P.file(content="deep")})})
        vfs.mount_directory("/q", lambda ctx: {"f": P.file(content_provider=lambda c: "late"), "p": P.directory(children={})})
        vfs.mount_directory("/o", lambda ctx: {"p": P.directory(children={"f": P.file(content="of")})})
        return vfs
    vfs = make()
    if S.flag("index"):
        vfs.enable_full_text_index()
    for d in ("/p", "/q"):
        if S.flag("seen" + d):
            vfs.ls(d)
    q = S.choice("q", ["/", "/p", "/p/d", "/q", "/o", "/o/p", "/p/f", "/p/n", "/q/n", "/n", "/f"])
    before = dump(make())
    ok, _ = S.attempt(vfs.copy, src, q, recursive=True)
    after = dump(vfs)
    tree_ok(S, vfs)
    into = q in before and before[q][0] == "d"
    dest = ("" if q == "/" else q) + "/" + base_of(src) if into else q
    if not ok:
        S.cover("refused")
        S.check(same(S, before, after), "a refused copy changes nothing")
        S.check(not (parent_of(dest) in before and before[parent_of(dest)][0] == "d" and not (before[src][0] == "d" and under(dest, src))
                     and (dest not in before or (not into and before[dest][0] == "f" and before[src][0] == "f"))), "a sensible copy is carried out")
        return
    S.cover("copied")
    S.check(not (before[src][0] == "d" and under(dest, src)), "a directory is never copied into itself")
    if dest in before:
        S.cover("replaced")
        S.check(before[dest][0] == "f" and not into, "a copy replaces only the file it names")
        S.check(after[dest][2] > before[dest][2], "replacing a file advances its version")
    want, got = subtree(before, src), subtree(after, dest)
    S.check(sorted(want) == sorted(got), "the copy has exactly the nodes of the source")
    S.check(S.all([S.eq(essence(want[k]), essence(got[k])) for k in want]), "the copy equals the source in content, policy and metadata")
    S.check(same(S, {k: v for k, v in before.items() if not under(k, dest)}, {k: v for k, v in after.items() if not under(k, dest)}), "source and bystanders are untouched")


def build(S, texts):
    vfs = S.sandfs.VirtualFileSystem()
    vfs.write_file("/a/b/f", texts[0])
    vfs.write_file("/a/g", texts[1])
    vfs.append_file("/a/g", "+")
    vfs.write_file("/ab/b", texts[2])
    vfs.write_file("/h", "h")
    vfs.get_node("/a/b").metadata["k"] = "dir meta"
    vfs.get_node("/a/b/f").metadata["k"] = "file meta"
    vfs.set_policy("/a/b/f", S.sandfs.NodePolicy(classification="secret", principals={"p"}))
    vfs.set_policy("/a/b", S.sandfs.NodePolicy(classification="internal", principals={"p", "q"}))
    return vfs


def essence(row):
    """What a copy must share with its source (versions and times are its own)."""
    return [row[0], row[1], row[3], row[4]]


def run(S, src, how):
    if how == "lazy":
        return lazy(S, src)
    texts = [S.str("t%d" % i, 1, 1, alphabet="xyz") for i in range(3)]
    vfs = build(S, texts)
    if how == "labels" and vfs.exists(src) and src != "/":
        vfs.get_node(src).version = S.int("ver", 0, 5)
        vfs.set_policy(src, S.sandfs.NodePolicy(readable=S.bool("r"), writable=S.bool("w"), append_only=S.bool("ao"),
                                                classification=S.choice("cl", ["public", "secret"])))
    vfs.enable_full_text_index()
    copy_once(S, vfs, src, how, "0")
    if how == "again":
        copy_once(S, vfs, S.choice("p1", ["/a", "/a/b", "/a/b/f", "/n", "/ab/n"]), how, "1")


def copy_once(S, vfs, p, how, tag):
    q = S.choice("q" + tag, PATHS)
    rec = S.flag("rec" + tag)
    before = dump(vfs, times=True)
    if how == "shell":
        view = S.sandfs.VisibilityView(principals={"p"})
        r = S.sandfs.SandboxShell(vfs, view=view).exec("cp " + ("-r " if rec else "") + p + " " + q)
        ok = r.exit_code == 0
    else:
        ok, _ = S.attempt(vfs.copy, p, q, recursive=rec)
    after = dump(vfs, times=True)
    tree_ok(S, vfs)
    into = q in before and before[q][0] == "d"
    dest = ("" if q == "/" else q) + "/" + base_of(p) if into else q
    if not ok:
        S.cover("refused")
        S.check(same(S, before, after), "a refused copy changes nothing")
        sensible = (p in before and p != "/" and (before[p][0] == "f" or rec) and parent_of(dest) in before
                    and before[parent_of(dest)][0] == "d" and not (before[p][0] == "d" and under(dest, p))
                    and (dest not in before or (not into and before[dest][0] == "f" and before[p][0] == "f")))
        if how != "labels":
            S.check(not sensible, "a sensible copy is carried out")
        return
    S.cover("copied")
    S.check(p in before, "only existing nodes can be copied")
    S.check(before[p][0] == "f" or rec, "directories are copied only recursively")
    S.check(not (before[p][0] == "d" and under(dest, p)), "a directory is never copied into itself")
    if dest in before:
        S.cover("replaced")
        S.check(before[dest][0] == "f" and not into, "a copy replaces only the file it names")
        S.check(after[dest][2] > before[dest][2], "replacing a file advances its version")
    want = subtree(before, p)
    got = subtree(after, dest)
    S.check(sorted(want) == sorted(got), "the copy has exactly the nodes of the source")
    S.check(S.all([S.eq(essence(want[k]), essence(got[k])) for k in want]),
            "the copy equals the source in content, policy and metadata")
    S.check(same(S, {k: v for k, v in before.items() if not under(k, dest)},
                 {k: v for k, v in after.items() if not under(k, dest)}), "source and bystanders are untouched")
    for k in want:
        a, b = vfs.get_node(p + k if p + k else "/"), vfs.get_node(dest + k)
        S.check(a is not b or dest == p, "the copy is a separate node")
        S.check(a.policy is not b.policy or dest == p, "the copy has a policy of its own")
    found = sorted(str(r.path) for r in vfs.search(S.mod("search").SearchQuery(query="")))
    files = sorted(k for k, row in after.items() if row[0] == "f" and readable(vfs, k))
    S.check(S.eq(found, files), "the search index knows the copy")
    if how == "later" and dest != p:
        later(S, vfs, p, dest, tag)


def later(S, vfs, p, dest, tag):
    """A change on one side must not show on the other."""
    side = S.choice("side" + tag, ["source", "copy"])
    here, there = (p, dest) if side == "source" else (dest, p)
    if under(here, there) or under(there, here):
        return
    before = subtree(dump(vfs, times=True), there)
    targets = [here + k for k in sorted(subtree(dump(vfs), here))]
    t = S.choice("target" + tag, targets)
    what = S.choice("what" + tag, ["write", "append", "remove", "meta", "policy", "principal", "addchild"])
    node = vfs.get_node(t)
    if what in ("write", "append"):
        S.attempt(vfs.append_file if what == "append" else vfs.write_file, t, "later")
    elif what == "remove":
        S.attempt(vfs.remove, t, recursive=True)
    elif what == "meta":
        node.metadata["later"] = "yes"
    elif what == "policy":
        node.policy.writable = not node.policy.writable
    elif what == "principal":
        node.policy.principals.add("later")
    else:
        S.attempt(vfs.write_file, t + "/later", "later")
    after = subtree(dump(vfs, times=True), there)
    S.check(S.eq(flat(before), flat(after)), "later changes on one side never show on the other")


def readable(vfs, p):
    node = vfs.get_node(p)
    while node is not None:
        if not node.policy.readable:
            return False
        node = node.parent
    return True


def flat(d):
    return [(k, d[k]) for k in sorted(d)]
