from props.lib import do_op, dump, same

BOUNDS = ("one operation (write, append, versioned write, touch, mkdir, remove, move, copy) in any state reached "
          "from a fixed tree by choosing, for each of 4 nodes, arbitrary readable/writable/append-only bits; 8 target paths; "
          "texts of 1 arbitrary character; a storage mount whose adapter accepts or refuses; index, hooks observed; "
          "some cases (thorough: all) after an arbitrary preceding operation; content and directory providers that fail during the operation; "
          "recursive removals and moves of trees with one node, an empty directory included, protected in any way; removals where the back end refuses any one of 4 files")
BUDGET = {"quick": 200, "thorough": 700}
COVERS = ("refused", "done")

OPS = ["write", "append", "cas", "touch", "mkdir", "remove", "move", "copy"]
PATHS = ["/a", "/a/b", "/a/n/m", "/f", "/f/x", "/d", "/n", "/a/d"]
NODES = ["/a", "/a/b", "/a/d", "/d"]


def cases(tier):
    out = []
    for op in OPS:
        for n in ("/a", "/a/b", "/a/d", "/f", "/d") if op in ("move", "copy") else (None,):
            out.append((f"policy-{op}{n or ''}", {"kind": "policy", "op": op, "src": n}))
        out.append((f"plain-{op}", {"kind": "plain", "op": op}))
        out.append((f"storage-{op}", {"kind": "storage", "op": op}))
        if tier == "thorough" or op in ("move", "copy", "write", "remove"):
            for first in ("write", "mkdir", "remove", "move") if tier == "thorough" else ("move",):
                out.append((f"after-{first}-{op}", {"kind": "after", "op": op, "first": first}))
    for op in OPS + ["read", "ls"]:
        out.append((f"failing-{op}", {"kind": "failing", "op": op}))
    out.append(("tree-remove", {"kind": "tree", "op": "remove"}))
    out.append(("tree-move", {"kind": "tree", "op": "move"}))
    out.append(("partial-remove", {"kind": "partial", "op": "remove"}))
    return out


def build(S):
    vfs = S.sandfs.VirtualFileSystem()
    vfs.write_file("/a/b", "b text")
    vfs.write_file("/f", "f text")
    vfs.write_file("/f", "f text 2")
    vfs.mkdir("/d")
    vfs.write_file("/a/d/b", "deep")
    return vfs


class Refusing:
    """Storage that refuses writes when told to."""

    def __init__(self, S, inner, refuse, err):
        self.S, self.inner, self.refuse, self.err = S, inner, refuse, err

    def read(self, path):
        return self.inner.read(path)

    def write(self, path, content, *, version):
        if self.refuse:
            raise self.err("refused")
        return self.inner.write(path, content, version=version)

    def list(self):
        return self.inner.list()

    def delete(self, path):
        if self.refuse:
            raise self.err("refused")
        return self.inner.delete(path)


def failing(S, op):
    """Content and directory providers that fail in the middle of an operation."""
    broken = [False]
    err = S.choice("err", [ValueError, OSError, S.exc.SandboxError])
    P = S.sandfs.ProvidedNode

    def text(ctx):
        if broken[0]:
            raise err("provider")
        return "provided"

    def folder(ctx):
        if broken[0]:
            raise err("provider")
        return {"f": P.file(content="lf"), "p": P.file(content_provider=text), "d": P.directory(children={"g": P.file(content="lg")})}

    def make():
        vfs = build(S)
        vfs.mount_file("/a/p", text)
        vfs.mount_directory("/l", folder)
        vfs.mount_directory("/a/l", folder)
        vfs.enable_full_text_index()
        return vfs
    vfs = make()
    if S.flag("loaded"):
        vfs.ls("/l")
        vfs.ls("/l/d")
        vfs.ls("/a/l")
        vfs.ls("/a/l/d")
    paths = ["/a", "/a/p", "/f", "/d", "/n", "/l", "/l/f", "/l/p", "/l/d/g", "/a/l", "/a/b"]
    events = []
    vfs.register_write_hook("/", lambda ev: events.append(("w", ev.path)))
    vfs.register_path_hook("/", lambda ev: events.append(("p", ev.path)))
    before = dump(make())
    broken[0] = True
    if op in ("read", "ls"):
        ok, _ = S.attempt(vfs.read_file if op == "read" else vfs.ls, S.choice("p", paths), also=(OSError, ValueError))
        done = False
    else:
        try:
            done = ok = do_op(S, vfs, op, "o", paths, text="new" if op != "cas" else None)["ok"]
        except (OSError, ValueError):
            done = ok = False
    broken[0] = False
    S.cover("done" if ok else "refused")
    if done:
        return
    S.check(events == [], "a refused operation notifies nobody")
    after = dump(vfs)
    S.check(sorted(after) == sorted(before), "a refused operation neither adds nor removes anything")
    S.check(same(S, before, after), "a refused operation changes no content, version, policy, metadata or modification time")


def tree(S, op):
    """Protected nodes anywhere in a tree, empty directories included."""
    vfs = S.sandfs.VirtualFileSystem()
    for p in ("/a/f", "/a/d/g", "/z"):
        vfs.write_file(p, p)
    vfs.mkdir("/a/e")
    vfs.mkdir("/a/d/h")
    vfs.mkdir("/a/0")
    vfs.enable_full_text_index()
    where = S.choice("where", ["/a", "/a/f", "/a/d", "/a/d/g", "/a/e", "/a/d/h", "/a/0"])
    vfs.set_policy(where, S.sandfs.NodePolicy(readable=S.bool("r"), writable=S.bool("w"), append_only=S.bool("ao")))
    before = dump(vfs, times=True)
    events = []
    vfs.register_write_hook("/", lambda ev: events.append(("w", ev.path)))
    vfs.register_path_hook("/", lambda ev: events.append(("p", ev.path)))
    if op == "remove":
        ok, _ = S.attempt(vfs.remove, S.choice("p", ["/a", "/a/d", "/a/e"]), recursive=True)
    else:
        ok, _ = S.attempt(vfs.move, S.choice("p", ["/a", "/a/d", "/a/e"]), S.choice("q", ["/n", "/a/e", "/a/n", "/z"]))
    S.cover("done" if ok else "refused")
    if ok:
        return
    S.check(events == [], "a refused operation notifies nobody")
    after = dump(vfs, times=True)
    S.check(sorted(after) == sorted(before), "a refused operation neither adds nor removes anything")
    S.check(same(S, before, after), "a refused operation changes no content, version, policy, metadata or modification time")


def partial(S):
    """A back end that refuses to delete one particular file of a tree."""
    inner = S.mod("adapters").MemoryStorageAdapter({"a": "stored a", "s/b": "stored b", "s/c": "stored c", "t/d": "stored d"})
    bad = S.choice("bad", ["a", "s/b", "s/c", "t/d"])
    err = S.choice("err", [ValueError, OSError])
    gone = []

    class One(Refusing):
        def delete(self, path):
            if path == bad:
                raise err("refused")
            gone.append(path)
            return inner.delete(path)

    vfs = build(S)
    vfs.mount_storage("/m", One(S, inner, False, err))
    vfs.enable_full_text_index()
    events = []
    vfs.register_write_hook("/", lambda ev: events.append(("w", ev.path)))
    vfs.register_path_hook("/", lambda ev: events.append(("p", ev.path)))
    before, stored = dump(vfs, times=True), listing(inner)
    path = S.choice("p", ["/m", "/m/a", "/m/s", "/m/s/b", "/m/s/c", "/m/t"])
    ok, _ = attempt(S, (OSError, ValueError), vfs.remove, path, recursive=True)
    S.cover("done" if ok else "refused")
    if ok:
        return
    S.known("F23", path in ("/m", "/m/s") and gone)
    S.check(events == [], "a refused operation notifies nobody")
    S.check(same(S, before, dump(vfs, times=True)), "a refused operation changes no content, version, policy, metadata or modification time")
    S.check(S.eq(listing(inner), stored), "a refused operation leaves the storage alone")


def run(S, kind, op, src=None, first=None):
    if kind == "partial":
        return partial(S)
    if kind == "failing":
        return failing(S, op)
    if kind == "tree":
        return tree(S, op)
    vfs = build(S)
    Policy = S.sandfs.NodePolicy
    store = None
    paths = PATHS
    also = ()
    if kind == "storage":
        inner = S.mod("adapters").MemoryStorageAdapter({"a": "stored a", "s/b": "stored b"})
        err = S.choice("err", [ValueError, OSError])
        also = (OSError, ValueError)
        store = inner
        vfs.mount_storage("/m", Refusing(S, inner, S.flag("refuse"), err))
        if S.flag("external"):
            # somebody else changed the stored file meanwhile
            inner.write("a", "changed elsewhere", version=0)
        paths = ["/m/a", "/m/s/b", "/m/n", "/m/s/n/k", "/m/s", "/f"]
    vfs.enable_full_text_index()
    if kind == "policy":
        bits = NODES if op not in ("move", "copy") else [n for n in NODES if n in (src, "/a", "/d")]
        for n in bits:
            t = n.replace("/", "_")
            vfs.set_policy(n, Policy(readable=S.bool("r" + t), writable=S.bool("w" + t), append_only=S.bool("ao" + t)))
    if kind == "after":
        do_op(S, vfs, first, "first", ["/a", "/a/b", "/f", "/d/f"], text="first")
    events = []
    vfs.register_write_hook("/", lambda ev: events.append(("w", ev.path)))
    vfs.register_path_hook("/", lambda ev: events.append(("p", ev.path)))
    before = dump(vfs, times=True)
    stored = listing(store) if store is not None else None
    cwd = vfs.pwd()
    if src is not None:
        q = S.choice("q", paths)
        if op == "move":
            ok, v = attempt(S, also, vfs.move, src, q)
        else:
            ok, v = attempt(S, also, vfs.copy, src, q, recursive=S.flag("rec"))
    else:
        try:
            a = do_op(S, vfs, op, "o", paths, text="new" if op != "cas" else None)
            ok = a["ok"]
        except also:
            ok = False
    S.cover("done" if ok else "refused")
    if ok:
        return
    S.check(vfs.pwd() == cwd, "the working directory stays")
    after = dump(vfs, times=True)
    S.check(sorted(after) == sorted(before), "a refused operation neither adds nor removes anything")
    S.check(same(S, before, after), "a refused operation changes no content, version, policy, metadata or modification time")
    S.check(events == [], "a refused operation notifies nobody")
    if store is not None:
        S.check(S.eq(listing(store), stored), "a refused operation leaves the storage alone")
    Query = S.mod("search").SearchQuery
    for word in ("new", "text", "deep", "stored"):
        with_index = sorted((str(r.path), r.line_no, r.line_text) for r in vfs.search(Query(query=word)))
        files = sorted((p, 1, row[1]) for p, row in before.items()
                       if row[0] == "f" and word in row[1] and readable(S, vfs, p))
        S.check(S.eq(with_index, files), "a refused operation leaves the search index alone")


def listing(store):
    return [(k, v.content, v.version) for k, v in sorted(store.list().items())]


def readable(S, vfs, p):
    node = vfs.get_node(p)
    while node is not None:
        if not node.policy.readable:
            return False
        node = node.parent
    return True


def attempt(S, also, fn, *a, **k):
    return S.attempt(fn, *a, also=also, **k)
