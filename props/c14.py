from props.lib import dump, same, tree_ok, under

BOUNDS = ("one or two back-end keys of up to 5 (thorough: 7) characters over '/', '.', blank, 'a', 'o' supplied to a mount at one of 4 places (nested "
          "ones included) when mounting and when synchronising; one or two names of up to 3 (thorough: 4) characters over the same letters from a directory "
          "provider, flat, nested in provided children and lazily nested; the rest of the tree holds 6 nodes outside the mount")
BUDGET = {"quick": 200, "thorough": 700}
COVERS = ("accepted", "refused")


def cases(tier):
    n = 7 if tier == "thorough" else 5
    out = []
    for at in ("/m", "/a", "/a/m", "/"):
        for when in ("mount", "sync"):
            out.append((f"storage {when} {at}", {"kind": "storage", "at": at, "when": when, "n": n}))
    out.append(("storage two", {"kind": "two", "at": "/m", "when": "sync", "n": n - 2}))
    out.append(("storage nested", {"kind": "nested", "at": "/a", "when": "sync", "n": n}))
    for shape in ("flat", "children", "lazy", "pair"):
        out.append((f"provider {shape}", {"kind": "provider", "at": "/m", "when": shape, "n": n - 2}))
    return out


def tree(S):
    vfs = S.sandfs.VirtualFileSystem()
    vfs.write_file("/o", "outside")
    vfs.write_file("/oo/o", "outside too")
    vfs.write_file("/ao", "sibling")
    vfs.write_file("/aa/a", "sibling dir")
    return vfs


def adapter(S, entries):
    A = S.mod("adapters")

    class Plain(A.StorageAdapter):
        def __init__(self):
            self.entries = entries

        def list(self):
            return {k: A.StorageEntry(content=v, version=0) for k, v in self.entries.items()}

        def read(self, path):
            return A.StorageEntry(content=self.entries[path])

        def write(self, path, content, *, version):
            self.entries[path] = content
            return A.StorageEntry(content=content, version=version + 1)

        def delete(self, path):
            self.entries.pop(path, None)
    return Plain()


def run(S, kind, at, when, n):
    vfs = tree(S)
    if kind == "provider":
        return provider(S, vfs, when, n)
    keys = [S.str("key", 1, n, alphabet="/. ao")]
    if kind == "two":
        keys.append(S.choice("key2", ["a", "o", "a/o"]))
        S.assume(keys[0] != keys[1])
    first = adapter(S, {})
    if kind == "nested":
        inner = adapter(S, {"o": "inner text"})
        vfs.mkdir("/a/o", parents=True)
        vfs.mount_storage("/a/o", inner)
    if when == "sync":
        vfs.mount_storage(at, first)
    if at == "/":
        before = {}
    else:
        before = {p: f for p, f in dump(vfs).items() if not under(p, at) and not under(at, p)}
    inner_before = {p: f for p, f in dump(vfs).items() if under(p, "/a/o")} if kind == "nested" else {}
    given = {k: "text%d" % i for i, k in enumerate(keys)}
    if when == "sync":
        first.entries.update(given)
        ok, v = S.attempt(vfs.sync_storage, at)
    else:
        ok, v = S.attempt(vfs.mount_storage, at, adapter(S, given))
    S.cover("accepted" if ok else "refused")
    tree_ok(S, vfs)
    now = dump(vfs)
    outside = {p: f for p, f in now.items() if not under(p, at) and not under(at, p)}
    S.check(sorted(outside) == sorted(before), "a mount adds and removes nothing outside its mount point")
    S.check(same(S, before, outside), "a mount changes nothing outside its mount point")
    inner_now = {p: f for p, f in now.items() if under(p, "/a/o")} if kind == "nested" else {}
    S.check(same(S, inner_before, inner_now), "an outer mount never changes a nested one")
    for p in now:
        for part in p.split("/"):
            S.check(part not in (".", ".."), "no node is called . or ..")
    parts = keys[0].split("/")
    proper = all(q not in ("", ".", "..") for q in parts)
    if len(keys) == 1 and proper:
        S.check(ok, "an ordinary relative key is accepted")
        where = ("" if at == "/" else at) + "/" + keys[0]
        if kind != "nested" or not under(where, "/a/o"):
            S.check(vfs.is_file(where) and vfs.read_file(where) == "text0", "and shown at its place below the mount point")
    if ".." in parts or keys[0].startswith("/"):
        S.check(not ok, "a key leading out of the mount point is refused")


def provider(S, vfs, shape, n):
    name = S.str("name", 0, n, alphabet="/. ao")
    N = S.sandfs.ProvidedNode
    leaf = N.file(content="provided")
    if shape == "flat":
        entries = {name: leaf}
    elif shape == "pair":
        entries = {"a": N.file(content="fine"), name: N.directory(children={"a": leaf})}
    elif shape == "children":
        entries = {"k": N.directory(children={name: leaf})}
    else:
        entries = {"k": N.directory(directory_provider=lambda ctx: {name: leaf})}
    before = dump(vfs)
    vfs.mount_directory("/m", lambda ctx: entries)
    ok, v = S.attempt(lambda: [str(p) for p, _ in vfs.walk("/m")])
    S.cover("accepted" if ok else "refused")
    bad = name == "" or name == "." or name == ".." or "/" in name
    S.check(S.iff(ok, not bad), "a provider's entries are accepted exactly when they are plain names")
    if not ok:
        S.check(isinstance(v, S.exc.ProviderError), "and otherwise fail as a provider error")
        ok2, _ = S.attempt(lambda: [str(p) for p, _ in vfs.walk("/m")])
        S.check(not ok2, "also when looked at again")
        now = {p: 0 for p in before}
        for p in before:
            S.check(vfs.exists(p), "nothing outside the mount point is lost")
        for e in vfs.ls("/"):
            S.check(str(e.path) in before or str(e.path) == "/m", "nothing outside the mount point appears")
        return
    tree_ok(S, vfs)
    now = dump(vfs)
    S.check(same(S, before, {p: f for p, f in now.items() if not under(p, "/m")}), "a provider changes nothing outside its directory")
    want = {"flat": ["/m", "/m/" + name], "pair": ["/m", "/m/a", "/m/" + name, "/m/" + name + "/a"], "children": ["/m", "/m/k", "/m/k/" + name],
            "lazy": ["/m", "/m/k", "/m/k/" + name]}[shape]
    if shape != "pair" or name != "a":
        S.check(S.eq(sorted(v), sorted(want)), "each provided entry is found below the mount point under its name")
    for p in want:
        if vfs.is_file(p):
            S.check(vfs.read_file(p) == ("fine" if p == "/m/a" and shape == "pair" else "provided"), "and readable there")
