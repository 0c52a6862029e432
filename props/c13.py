from props.lib import under

BOUNDS = ("histories of 2 (thorough: 3) operations among write, append, conditional write, touch, mkdir, remove, recursive remove, shell "
          "commands and redirections, direct changes of the back end (write, create, delete, delete and create again) and synchronisation, on 7 paths around two "
          "nested mounts (outer one also at the root) with the memory and the directory back end; texts are empty or arbitrary single characters (one of two letters for the directory back end); "
          "back ends with 8 files of equal and similar names; moves and copies touching a mount are the recorded finding F22")
ASSUMPTIONS = ["directory back end: the host filesystem behaves like the in-memory model of symx/fakefs.py, with strictly increasing modification times"]
BUDGET = {"quick": 240, "thorough": 700}
COVERS = ("stored", "removed", "conflict", "synced", "adopted")

OPS = ["write", "append", "cas", "touch", "mkdir", "remove", "rmr", "sh", "ext", "extnew", "extdel", "sync", "move", "copy"]
PATHS = ["/m/f", "/m/d/g", "/m/n/h", "/m/new", "/m/n/x/new", "/mm", "/o"]


def cases(tier):
    out = []
    firsts = [o for o in OPS if o not in ("move", "copy")]
    for kind in ("mem", "fs"):
        for a in firsts:
            for b in OPS:
                if b in ("move", "copy") and a not in ("write", "mkdir"):
                    continue
                if tier == "quick" and ("sh" in (a, b) and a not in ("ext", "write") or b == "rmr" and a in ("rmr", "mkdir")):
                    continue
                if tier == "thorough" or kind == "mem" or a in ("write", "remove", "ext", "extdel", "touch") :
                    out.append((f"{kind} {a} {b}", {"kind": kind, "ops": [a, b], "outer": "/m"}))
    for a in OPS:
        out.append((f"root {a}", {"kind": "mem", "ops": [a], "outer": "/"}))
    out.append(("mem extswap sync", {"kind": "mem", "ops": ["extswap", "sync"], "outer": "/m"}))
    out.append(("mem write extswap sync", {"kind": "mem", "ops": ["write", "extswap", "sync"], "outer": "/m"}))
    out += [(f"alike {k} {w}", {"kind": k, "ops": ["alike", w], "outer": "/m"}) for k in ("mem", "fs") for w in ("sync", "remove", "write", "again", "refusing")]
    if tier == "thorough":
        for a in ("write", "remove", "ext", "extdel"):
            for b in ("write", "append", "remove", "sync", "cas", "ext"):
                for c in ("write", "remove", "sync", "touch"):
                    out.append((f"mem {a} {b} {c}", {"kind": "mem", "ops": [a, b, c], "outer": "/m"}))
    return out


def make(S, kind, name, files):
    A = S.mod("adapters")
    if kind == "mem":
        return A.MemoryStorageAdapter(files)
    root = S.pathlib.Path("/host/" + name)
    root.mkdir(parents=True)
    ad = A.FileSystemAdapter(root)
    for k, v in files.items():
        ad.write(k, v, version=0)
    return ad


ALIKE = ["f", "d/f", "d/d/f", "e/f", "fd/f", "d/ff", "F", "e/d/f"]


def alike(S, kind, what):
    """Files of equal and similar names in several directories of the back end."""
    vfs = S.sandfs.VirtualFileSystem()
    ad = make(S, kind, "out", {k: "text of " + k for k in ALIKE})
    vfs.mount_storage("/m", ad)
    k = S.choice("k", ALIKE)
    j = S.choice("j", [x for x in ALIKE if x != k])
    want = {x: "text of " + x for x in ALIKE}
    if what == "sync":
        ad.delete(k)
        del want[k]
        if S.flag("both"):
            ad.delete(j)
            del want[j]
        else:
            ad.write(j, "changed", version=ad.read(j).version)
            want[j] = "changed"
        if S.flag("more"):
            ad.write("new/f", "new", version=0)
            want["new/f"] = "new"
        vfs.sync_storage("/m")
        S.cover("synced")
    elif what == "refusing":
        # the back end refuses to delete or write one file; whatever was removed before that is removed in both
        bad, delete, write = k, ad.delete, ad.write

        def refuse(fn):
            def call(path, *a, **kw):
                if str(path) == bad:
                    raise OSError("refused")
                return fn(path, *a, **kw)
            return call
        ad.delete, ad.write = refuse(delete), refuse(write)
        p = S.choice("p", ["/m", "/m/d", "/m/e", "/m/f", "/m/fd", "/m/e/d"])
        if S.flag("rm"):
            ok, _ = S.attempt(vfs.remove, p, recursive=True, also=(OSError,))
        else:
            ok, _ = S.attempt(vfs.write_file, "/m/" + j, "changed", also=(OSError,))
            S.check(ok, "files the back end accepts can be written")
            ok, _ = S.attempt(vfs.append_file, "/m/" + k, "changed", also=(OSError,))
            S.check(not ok, "a write the back end refuses fails")
        S.cover("removed" if ok else "conflict")
        want = {x: v[0] for x, v in stored(ad).items()}
    elif what == "remove":
        vfs.remove("/m/" + k)
        del want[k]
        vfs.write_file("/m/" + j, "changed")
        want[j] = "changed"
        S.cover("removed")
    elif what == "write":
        vfs.write_file("/m/" + k, "one")
        vfs.append_file("/m/" + j, "+")
        want[k] = "one"
        want[j] += "+"
        vfs.write_file("/m/" + k + "x", "new")
        want[k + "x"] = "new"
        S.cover("stored")
    else:
        # unmounted names come and go: removed, created again, synchronised twice
        vfs.remove("/m/" + k)
        vfs.write_file("/m/" + k, "again")
        want[k] = "again"
        vfs.sync_storage("/m")
        ad.delete(j)
        del want[j]
        vfs.sync_storage("/m")
        vfs.sync_storage("/m")
        S.cover("adopted")
    got = {str(p)[3:]: n.read(vfs) for p, n in vfs.walk("/m") if not hasattr(n, "children")}
    S.check(S.eq(sorted(got.items()), sorted(want.items())), "the mount shows exactly the files of the back end")
    have = {x: v[0] for x, v in stored(ad).items()}
    S.check(S.eq(sorted(have.items()), sorted(want.items())), "each back end holds exactly the files below its mount")
    for x in sorted(want):
        S.check(vfs.get_version("/m/" + x) == stored(ad)[x][1], "with the texts and versions the filesystem shows")


def run(S, kind, ops, outer):
    if ops[0] == "alike":
        return alike(S, kind, ops[1])
    vfs = S.sandfs.VirtualFileSystem()
    letters = None if kind == "mem" else "xy"
    t0 = S.str("t0", 0 if kind == "mem" or ops[0] in ("remove", "ext", "touch") else 1, 1, alphabet=letters)
    head = "" if outer == "/m" else "m/"
    out_ad = make(S, kind, "out", {head + "f": t0, head + "d/g": "deep"})
    in_ad = make(S, kind, "in", {"h": "inner"})
    vfs.write_file("/o", "plain")
    if len(ops) < 2 and S.flag("inner_first"):
        vfs.mount_storage("/m/n", in_ad)
    vfs.mount_storage(outer, out_ad)
    if not vfs.exists("/m/n/h"):
        vfs.mount_storage("/m/n", in_ad)
    shell = S.sandfs.SandboxShell(vfs)
    if outer == "/":
        S.check(not vfs.exists("/o"), "mounting over a directory shows the back end's files only")
    dirty = {}          # files changed behind the filesystem's back: path -> text, or None when removed
    agree(S, vfs, outer, out_ad, in_ad, dirty)
    for k, op in enumerate(ops):
        p = S.choice("p%d" % k, PATHS if op not in ("ext", "extdel", "extswap") else PATHS[:3])
        t = S.str("t%d" % (k + 1), 1, 1, alphabet=letters) if op not in ("sh", "touch") else "w"
        ad, rel = owner(p, outer, out_ad, in_ad)
        before = stored(out_ad), stored(in_ad)
        existed = vfs.is_file(p)
        ok = True
        if op == "write":
            ok, _ = S.attempt(vfs.write_file, p, t)
        elif op == "append":
            ok, _ = S.attempt(vfs.append_file, p, t)
        elif op == "cas":
            ok, _ = S.attempt(vfs.write_file, p, t, expected_version=S.int("e%d" % k, 0, 3))
        elif op == "touch":
            ok, _ = S.attempt(vfs.touch, p)
        elif op == "mkdir":
            ok, _ = S.attempt(vfs.mkdir, p, parents=True, exist_ok=True)
        elif op in ("remove", "rmr"):
            if op == "rmr":
                p = S.choice("q%d" % k, [p, "/m/d", "/m/n"])
            seen = [f for f in dirty if under(f, p) and vfs.is_file(f)]
            ok, _ = S.attempt(vfs.remove, p, recursive=op == "rmr")
            if ok:
                for f in seen:
                    dirty.pop(f)
        elif op == "sh":
            cmd = S.choice("c%d" % k, ["write {p} w", "append {p} w", "echo -n w > {p}", "echo -n w >> {p}", "touch {p}", "rm {p}", "rm -r {p}"])
            ok = shell.exec(cmd.replace("{p}", p)).exit_code == 0
            if cmd.startswith("touch") and existed:
                op = "touch"
            if ok and cmd.startswith("rm"):
                dirty.pop(p, None)
        elif op == "ext":
            if rel not in before[0 if ad is out_ad else 1]:
                return
            ad.write(rel, t, version=ad.read(rel).version)
            dirty[p] = t
            before = stored(out_ad), stored(in_ad)
        elif op == "extnew":
            if ad is None or rel in stored(ad):
                return
            ad.write(rel, t, version=0)
            dirty[p] = t
            before = stored(out_ad), stored(in_ad)
        elif op == "extswap":       # removed and created again in the back end, with whatever version
            if rel not in stored(ad):
                return
            ad.delete(rel)
            ad.write(rel, t, version=S.int("w%d" % k, -1, 2))
            dirty[p] = t
            before = stored(out_ad), stored(in_ad)
        elif op == "extdel":
            if rel not in stored(ad):
                return
            ad.delete(rel)
            dirty[p] = None
            before = stored(out_ad), stored(in_ad)
        elif op == "sync":
            at = S.choice("at%d" % k, [outer, "/m/n"])
            if not vfs.is_dir(at):
                return
            ok, _ = S.attempt(vfs.sync_storage, at)
            S.check(ok, "a mount can be synchronised")
            for f in list(dirty):
                if owner(f, outer, out_ad, in_ad)[0] is (in_ad if at == "/m/n" else out_ad):
                    S.cover("adopted")
                    if dirty[f] is None:
                        S.check(not vfs.exists(f), "what left the back end is gone after synchronising")
                    else:
                        S.check(vfs.read_file(f) == dirty[f], "what changed in the back end is visible after synchronising")
                    del dirty[f]
            S.cover("synced")
        elif op in ("move", "copy"):
            q = S.choice("q%d" % k, ["/m/new", "/m/d", "/o2", "/m/n/new"])
            ok, _ = S.attempt(vfs.move if op == "move" else vfs.copy, p, q)
            S.known("F22", ok and (owner(q, outer, out_ad, in_ad)[0] is not None or op == "move" and ad is not None))
        after = stored(out_ad), stored(in_ad)
        if not ok:
            S.cover("conflict" if p in dirty else "refused")
            if op not in ("rmr", "remove"):
                S.check(S.eq(rows(before), rows(after)), "a refused operation leaves the back ends alone")
        elif op in ("write", "append", "cas", "sh") and ad is not None and vfs.is_file(p):
            S.cover("stored")
            S.check(dirty.get(p) is None, "a write on top of an unseen change of the back end is refused")
            dirty.pop(p, None)
            got = stored(ad).get(rel)
            S.check(got is not None, "a written file is in the back end of its innermost mount")
            S.check(S.eq(list(got), [vfs.read_file(p), vfs.get_version(p)]), "the back end holds the file's text and version")
        elif op in ("remove", "rmr"):
            S.cover("removed")
        agree(S, vfs, outer, out_ad, in_ad, dirty)


def owner(p, outer, out_ad, in_ad):
    if under(p, "/m/n"):
        return in_ad, p[len("/m/n/"):]
    if under(p, outer):
        return out_ad, p[1:] if outer == "/" else p[len(outer) + 1:]
    return None, None


def stored(ad):
    return {k: (e.content, e.version) for k, e in ad.list().items()}


def rows(pair):
    return [sorted((k, v[0], v[1]) for k, v in d.items()) for d in pair]


def agree(S, vfs, outer, out_ad, in_ad, dirty):
    """Outside of unseen changes, each back end holds exactly the files of its mount."""
    want = {0: {}, 1: {}}
    for path, node in vfs.walk("/"):
        p = str(path)
        if hasattr(node, "children") or p in dirty:
            continue
        ad, rel = owner(p, outer, out_ad, in_ad)
        if ad is not None:
            want[0 if ad is out_ad else 1][rel] = (node.read(vfs), node.version)
    for i, ad in enumerate((out_ad, in_ad)):
        have = {k: v for k, v in stored(ad).items() if all(owner(f, outer, out_ad, in_ad) != (ad, k) for f in dirty)}
        S.check(sorted(have) == sorted(want[i]), "each back end holds exactly the files below its mount")
        S.check(S.all([S.eq(list(have[k]), list(want[i][k])) for k in have]), "with the texts and versions the filesystem shows")
