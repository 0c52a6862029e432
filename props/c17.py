from props.lib import do_op, pol, tree_ok

BOUNDS = ("snapshots of a 7-node tree with arbitrary 1-character texts, versions, policy bits, metadata and any of 4 working directories; 1 (thorough: 2) arbitrary "
          "operations before restoring (writes, appends, removals, moves, copies, mkdir, touch, in-place policy and metadata changes, cd, "
          "mounting); restoring twice, and into another filesystem; two snapshots with only a policy, metadata or the working directory changed in between; with and without index, search view and storage mount")
ASSUMPTIONS = ["metadata values are plain values (the snapshot copies the dictionary, not objects inside it)",
               "provider-backed files are restored as the text they had; storage back ends themselves are not rolled back"]
BUDGET = {"quick": 200, "thorough": 700}
COVERS = ("changed", "restored")

OPS = ["write", "append", "remove", "move", "copy", "mkdirp", "touch", "policy", "policyobj", "meta", "cd", "storage", "rootmeta", "rmall"]
PATHS = ["/a", "/a/f", "/a/d", "/a/d/g", "/e", "/new/x"]


def cases(tier):
    out = []
    for op in OPS:
        for extra in ("plain", "index", "view", "mount", "other"):
            if tier == "thorough" or extra in ("plain", "index") or op in ("write", "remove", "move"):
                out.append((f"{extra} {op}", {"extra": extra, "ops": [op]}))
        for b in OPS if tier == "thorough" else ("write", "remove", "policy"):
            if tier == "thorough" or op in ("move", "remove", "policyobj", "cd", "rmall"):
                out.append((f"two {op} {b}", {"extra": "plain", "ops": [op, b]}))
    return out


def full(vfs):
    out = {}
    for path, n in vfs.walk("/"):
        is_dir = hasattr(n, "children")
        out[str(path)] = ["d" if is_dir else "f", "" if is_dir else n.read(vfs), n.version, list(pol(n)), sorted(n.metadata.items()),
                          n.created_at, n.modified_at]
    return out


def equal(S, a, b, msg):
    S.check(sorted(a) == sorted(b), msg + ": the same nodes")
    S.check(S.all([S.eq(a[k], b[k]) for k in a]), msg + ": texts, versions, policies, metadata and times")


def run(S, extra, ops):
    vfs = S.sandfs.VirtualFileSystem()
    two = len(ops) > 1
    t = S.str("t", 1, 1, alphabet="xyz" if extra in ("index", "view") else None)
    vfs.write_file("/a/f", t)
    vfs.write_file("/a/d/g", "gg")
    vfs.mkdir("/e")
    vfs.touch("/h")
    P = S.sandfs.NodePolicy
    vfs.cd(S.choice("cwd", ["/a", "/", "/e", "/a/d"] if extra in ("plain", "other") and not two else ["/a"]))
    ro = S.bool("ro") if extra in ("plain", "other") else False
    vfs.set_policy("/a/f", P(writable=not two and S.flag("w") or two, append_only=S.bool("ao") if not two else False, classification="c", principals={"p"}))
    vfs.set_policy("/a/d", P(readable=S.bool("dr") if not two else True, writable=not ro))
    vfs.get_node("/a/f").metadata["k"] = 1
    vfs.get_node("/e").metadata["k"] = 2
    vfs.get_node("/a/f").version = S.int("v", 0, 9)
    store = None
    if extra == "mount":
        store = S.mod("adapters").MemoryStorageAdapter({"s": "stored"})
        vfs.mount_storage("/m", store)
    if extra == "index":
        vfs.enable_full_text_index()
    if extra == "view":
        vfs.enable_search_view()
    earlier = None
    if extra == "plain" and not two and ops[0] not in ("copy", "move", "remove"):
        # an earlier snapshot, and changes since then that write no file
        was = full(vfs)
        cwd = vfs.pwd()
        earlier = vfs.snapshot()
        touched = S.choice("since", ["", "/a/f", "/a/d", "/e", "/h"])
        if touched:
            vfs.set_policy(touched, P(classification="since", principals={"s"}, writable=pol(vfs.get_node(touched))[1]))
            vfs.get_node(touched).metadata["k"] = "since"
        vfs.cd("/e")
    before = full(vfs)
    here = vfs.pwd()
    snap = vfs.snapshot()
    equal(S, before, full(vfs), "taking a snapshot changes nothing")
    S.check(vfs.pwd() == here, "taking a snapshot does not move the working directory")
    for k, op in enumerate(ops):
        change(S, vfs, op, "o%d" % k)
    S.cover("changed")
    target = S.sandfs.VirtualFileSystem() if extra == "other" else vfs
    if extra == "other":
        target.write_file("/a", "in the way")
        target.write_file("/z", "gone")
    target.restore(snap)
    S.cover("restored")
    equal(S, before, full(target), "restoring brings back the tree of the snapshot")
    S.check(target.pwd() == here, "and the working directory")
    tree_ok(S, target)
    if extra == "index":
        Q = S.mod("search").SearchQuery
        plain = S.sandfs.VirtualFileSystem()
        plain.restore(snap)
        for q in ("x", "g"):
            S.check(S.eq(sorted((str(r.path), r.line_no, r.line_text) for r in vfs.search(Q(query=q))),
                         sorted((str(r.path), r.line_no, r.line_text) for r in plain.search(Q(query=q)))), "the index matches the restored tree")
    if extra == "view":
        out = S.sandfs.SandboxShell(vfs).exec("cat '/@search?q=g'/a/d/g")
        if pol(vfs.get_node("/a/d"))[0] is True:
            S.check(out.exit_code == 0 and "gg" in out.stdout, "the search view works on the restored tree")
    if extra == "mount":
        S.check(S.attempt(vfs.write_file, "/m/s", "again")[0] and store.read("s").content == "again", "storage mounts work after restoring")
        vfs.restore(snap)
    # the restored tree is independent of the snapshot, which can be restored again
    change(S, target, "write", "again", fixed="/a/f")
    target.get_policy("/a/f").principals.add("intruder")
    target.get_node("/a/f").metadata["k"] = 99
    target.set_policy("/e", P(writable=False))
    target.restore(snap)
    equal(S, before, full(target), "restoring again gives the same tree")
    if earlier is not None:
        vfs.restore(earlier)
        equal(S, was, full(vfs), "each snapshot brings back the tree it was taken of")
        S.check(vfs.pwd() == cwd, "with its working directory")
        vfs.restore(snap)
        equal(S, before, full(vfs), "in any order")


def change(S, vfs, op, tag, fixed=None):
    if op in ("write", "append", "remove", "move", "copy", "mkdirp", "touch"):
        return do_op(S, vfs, op, tag, [fixed] if fixed else (PATHS if op not in ("move", "copy") else PATHS[:5]), text="new")
    p = S.choice(tag + ".p", ["/", "/a/f", "/a/d", "/e"])
    if op == "policy":
        S.attempt(vfs.set_policy, p, S.sandfs.NodePolicy(writable=False, readable=False))
    elif op == "policyobj" and vfs.exists(p):
        po = vfs.get_policy(p)
        po.principals.add("q")
        po.readable = False
        po.classification = "changed"
    elif op == "meta" and vfs.exists(p):
        vfs.get_node(p).metadata["k"] = 5
        vfs.get_node(p).metadata["other"] = 6
    elif op == "rootmeta":
        vfs.root.metadata["r"] = 1
        vfs.root.policy.writable = False
    elif op == "cd":
        S.attempt(vfs.cd, p)
    elif op == "storage":
        S.attempt(vfs.mount_storage, "/st", S.mod("adapters").MemoryStorageAdapter({"k": "v"}))
    elif op == "rmall":
        for q in ("/a", "/e", "/h"):
            S.attempt(vfs.remove, q, recursive=True)
