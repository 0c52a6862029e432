BOUNDS = ("histories of 2 (thorough: 3) operations among write, append, touch, remove, move, copy, policy change, storage mount, direct "
          "back-end change with synchronisation, snapshot and restore, on 6 paths, applied to a filesystem with the index (enabled before or in between) and one without; "
          "texts of up to 2 characters over 3 letters, upper case and newline, texts written later also empty, blank or with unusual letters and line separators, queries of 1 (thorough: 0-2) characters, plain or regular expression, with or without case, below 18 prefixes (relative ones and ones with dot segments included) from 3 working directories")
ASSUMPTIONS = ["files with static text (what a content provider returns may change without notice)"]
BUDGET = {"quick": 280, "thorough": 700}
COVERS = ("found", "nothing")

OPS = ["write", "append", "remove", "move", "copy", "touch", "policy", "storage", "sync", "restore", "enable"]
PATHS = ["/a", "/a/f", "/a/d/g", "/b", "/b/f", "/m/s"]


def cases(tier):
    out = []
    for a in OPS:
        for b in OPS:
            if tier == "thorough" or b not in ("enable", "policy"):
                out.append((f"{a} {b}", {"ops": [a, b]}))
    if tier == "thorough":
        for a in ("write", "remove", "storage", "move"):
            for b in ("move", "copy", "restore", "remove"):
                for c in ("write", "remove", "move", "restore"):
                    out.append((f"{a} {b} {c}", {"ops": [a, b, c]}))
    for q in ("plain", "regex"):
        out.append((f"query {q}", {"ops": [q]}))
    return out


def found(vfs, query):
    return sorted((str(r.path), r.line_no, r.line_text) for r in vfs.search(query))


def run(S, ops):
    A = S.mod("adapters")
    Q = S.mod("search").SearchQuery
    pair = []
    t = S.str("t", 1, 2, alphabet="xX\n") if len(ops) == 1 else "xy" if set(ops) <= {"move", "copy"} else S.str("t", 1, 1, alphabet="xy")
    stores = []
    late = "enable" in ops
    for indexed in (True, False):
        vfs = S.sandfs.VirtualFileSystem()
        if indexed and not late and len(ops) > 1:
            vfs.enable_full_text_index()
        vfs.write_file("/a/f", t)
        vfs.write_file("/a/d/g", "x y\nz")
        vfs.write_file("/ab", "x")
        if indexed and len(ops) == 1:
            vfs.enable_full_text_index()
        pair.append(vfs)
        stores.append(A.MemoryStorageAdapter({"s": "x stored", "d/k": "y\nx"}))
    one = len(ops) == 1
    snaps = [v.snapshot() for v in pair]
    for k, op in enumerate(ops):
        if op in ("plain", "regex"):
            break
        tag = "o%d" % k
        p = S.choice(tag + ".p", PATHS) if op not in ("storage", "sync", "restore", "enable") else None
        q = S.choice(tag + ".q", ["/a", "/b", "/a/d", "/c"]) if op in ("move", "copy") else None
        new = S.choice(tag + ".t", ["", S.str(tag + ".s", 1, 1, alphabet="xy "), "\n\u03a3y\u2028x"]) if op in ("write", "append", "sync") else None
        for i, vfs in enumerate(pair):
            if op == "write":
                S.attempt(vfs.write_file, p, new)
            elif op == "append":
                S.attempt(vfs.append_file, p, new)
            elif op == "remove":
                S.attempt(vfs.remove, p, recursive=True)
            elif op == "move":
                S.attempt(vfs.move, p, q)
            elif op == "copy":
                S.attempt(vfs.copy, p, q, recursive=True)
            elif op == "touch":
                S.attempt(vfs.touch, p)
            elif op == "policy":
                S.attempt(vfs.set_policy, p, S.sandfs.NodePolicy(readable=False))
            elif op == "storage":
                S.attempt(vfs.mount_storage, "/m", stores[i])
            elif op == "sync":
                stores[i].write("s", new, version=stores[i].read("s").version)
                stores[i].delete("d/k")
                S.attempt(vfs.sync_storage, "/m")
            elif op == "restore":
                vfs.restore(snaps[i])
            elif op == "enable" and i == 0:
                vfs.enable_full_text_index()
    if one:
        text = S.str("q", 1, 2, alphabet="x.^" if ops[0] == "regex" else "xXy")
        where = S.choice("cwd", ["/", "/a", "/a/d"])
        for vfs in pair:
            vfs.cd(where)
        todo = [(text, S.flag("ic"), S.choice("pre", [None, "/", "/a", "/a/f", "/a/d", "/none", "", ".", "..", "a", "d", "../a", "//a", "/a/../a/d", "/none/../a", "/a/d/..", "/../a", "/a//d", "/a/f/../d"]))]
    else:
        todo = [("x", False, None), ("x", False, "/a"), ("X", True, "/m"), ("", False, "/a"), ("\u03a3", True, None)]
    for text, ic, pre in todo:
        query = Q(query=text, regex=ops[0] == "regex", ignore_case=ic, path_prefix=S.pathlib.PurePosixPath(pre) if pre is not None else None)
        a, b = found(pair[0], query), found(pair[1], query)
        S.cover("found" if b else "nothing")
        S.check(S.eq(a, b), "searching with the index finds exactly what searching without it finds")
        for path, line_no, line in a:
            S.check(pair[0].read_file(path).splitlines()[line_no - 1] == line, "every result is a line the file has now")
