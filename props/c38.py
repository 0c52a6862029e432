BOUNDS = ("a fixed key and one of 1 (thorough: up to 2) characters and texts of up to 1 arbitrary character; histories of 3 (thorough: 4) operations out of read, list, write with the right, a stale, a too-new version, to a missing key, delete, and changing what was returned, on one of two adapters made from the same mapping; "
          "with the adapter also mounted in two filesystems")
ASSUMPTIONS = ["the version a new key starts with is the writer's plus one"]
BUDGET = {"quick": 200, "thorough": 700}
COVERS = ("written", "refused", "read", "missing", "deleted", "conflict")

OPS = ["read", "list", "write", "stale", "ahead", "delete", "alter"]


def cases(tier):
    return [("%s %s" % (a, b), {"kind": "direct", "a": a, "b": b}) for a in OPS for b in OPS] + [("shared " + x, {"kind": "shared", "a": x, "b": ""}) for x in ("write", "append", "touch", "remove", "sync")]


def run(S, kind, a, b):
    if kind == "shared":
        return shared(S, a)
    k1 = S.str("k1", 1, 2 if S.thorough else 1, "xy/")
    t = [S.str("t0", 1, 1), S.str("t1", 1, 1), S.str("t2", 0, 1)]
    initial = {"x": t[0]}
    store = S.sandfs.MemoryStorageAdapter(initial)
    other = S.sandfs.MemoryStorageAdapter(initial)
    model = {"x": (t[0], 0)}
    for n in range(4 if S.thorough else 3):
        op = a if n == 0 else b if n == 1 else S.choice("op%d" % n, OPS)
        key = ["x", k1][S.pick("key%d" % n, 2)]
        step(S, store, model, op, key, t[n % 3])
        content(S, store, model)
    content(S, other, {"x": (t[0], 0)})
    S.check(list(initial) == ["x"] and initial["x"] == t[0], "the mapping it was made from is left alone")


def content(S, store, model):
    got = store.list()
    S.check(len(got) == len(model), "exactly the stored keys are listed")
    for k, (text, version) in model.items():
        S.check(k in got and got[k].content == text and got[k].version == version, "with their texts and versions")
        e = store.read(k)
        S.check(e.content == text and e.version == version, "and read like that")


def step(S, store, model, op, key, text):
    cur = model.get(key)
    if op == "read":
        try:
            e = store.read(key)
        except FileNotFoundError:
            S.check(cur is None, "what was stored can be read")
            S.cover("missing")
            return
        S.check(cur is not None and e.content == cur[0] and e.version == cur[1], "reading returns what was last stored")
        S.cover("read")
    elif op == "list":
        store.list().clear()
    elif op in ("write", "stale", "ahead"):
        version = cur[1] if cur is not None else 0
        if op == "stale":
            version = version - 1 if version else 1
        elif op == "ahead":
            version = version + 1
        try:
            e = store.write(key, text, version=version)
        except ValueError:
            S.check(cur is not None and version != cur[1], "a write with the present version is accepted")
            S.cover("refused")
            return
        S.check(cur is None or version == cur[1], "a write with another version is refused")
        S.check(e.content == text and e.version == version + 1, "an accepted write advances the version")
        model[key] = (text, version + 1)
        S.cover("written")
        e.content = "altered"
        e.version = 77
    elif op == "delete":
        store.delete(key)
        model.pop(key, None)
        S.cover("deleted")
    elif op == "alter":
        for e in store.list().values():
            e.content = "altered"
            e.version = 99
        if cur is not None:
            e = store.read(key)
            e.content = "altered"
            e.version = 99


def shared(S, op):
    """Two filesystems over one back end: no write is lost unseen."""
    t, u = S.str("t", 0, 2), S.str("u", 0, 2)
    store = S.sandfs.MemoryStorageAdapter({"f": "0", "d/g": "0"})
    one, two = S.sandfs.VirtualFileSystem(), S.sandfs.VirtualFileSystem()
    one.mount_storage("/m", store)
    two.mount_storage("/n", store)
    path = S.choice("path", ["f", "d/g", "new"])
    one.write_file("/m/" + path, t)
    S.check(store.read(path).content == t, "the first write reaches the back end")
    synced = S.pick("synced", 2)
    if synced:
        two.sync_storage("/n")
        S.check(two.read_file("/n/" + path) == t, "a synchronised filesystem shows it")
    if op == "sync":
        return
    fn = {"write": lambda: two.write_file("/n/" + path, u), "append": lambda: two.append_file("/n/" + path, u), "touch": lambda: two.touch("/n/" + path), "remove": lambda: two.remove("/n/" + path)}[op]
    ok, _ = S.attempt(fn, also=(ValueError,))
    if synced:
        S.check(ok, "one that is up to date may change it")
        if op == "write":
            S.check(store.read(path).content == u, "replacing")
        elif op == "append":
            S.check(store.read(path).content == t + u, "or extending it")
    elif op in ("write", "append"):
        S.check(not ok and store.read(path).content == t, "one that has not seen the change cannot overwrite it")
        S.cover("conflict")
