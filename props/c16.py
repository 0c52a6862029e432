BOUNDS = ("texts of up to 2 (thorough: 3) arbitrary Unicode scalar values round-tripped through the directory back end (directly, listed, re-opened, "
          "through a mount); bytes written by others of up to 2 arbitrary characters; histories of 5 (thorough: 6) steps among read, list, write with the last seen "
          "version, delete, and changes behind the back end's back (newer or older modification time, removal, creation) on one file; file and directory names of up to 2 (3) characters over dot, letters, blank and punctuation, written or found")
ASSUMPTIONS = ["changes made by others alter the modification time of the file", "host filesystem as modelled by symx/fakefs.py"]
BUDGET = {"quick": 200, "thorough": 700}
COVERS = ("roundtrip", "conflict", "written")

STEPS = ["read", "list", "write", "delete", "ext", "extold", "extdel"]


def cases(tier):
    out = [(f"text {via} {name}", {"kind": "text", "via": via, "name": name, "n": 3 if tier == "thorough" and via == "api" else 2})
           for via in ("api", "mount", "list", "fresh") for name in ("f", "d/e")]
    out += [(f"names {where}", {"kind": "names", "via": where, "name": "", "n": 3 if tier == "thorough" else 2}) for where in ("top", "below", "dir")]
    out += [("foreign", {"kind": "foreign", "via": "", "name": "f", "n": 2})]
    for start in ("absent", "present"):
        for first in STEPS:
            for second in STEPS:
                out.append((f"history {start} {first} {second}", {"kind": "history", "via": start, "name": [first, second], "n": 4 if tier == "thorough" else 3}))
    return out


def run(S, kind, via, name, n):
    A = S.mod("adapters")
    w = S.fs
    w.mkdir("/host")
    w.mkdir("/host/r")
    root = S.pathlib.Path("/host/r")
    if kind == "history":
        return history(S, A, w, root, via, name, n)
    if kind == "names":
        return names(S, A, w, root, via, n)
    text = S.str("text", 0, n)
    if kind == "foreign":
        w.put("/host/r/f", text)
        ad = A.FileSystemAdapter(root)
        S.check(ad.read("f").content == text, "a file put there by others is read as it is")
        vfs = S.sandfs.VirtualFileSystem()
        vfs.mount_storage("/m", ad)
        S.check(vfs.read_file("/m/f") == text, "and mounted as it is")
        S.check(w.text("/host/r/f") == text, "without being rewritten")
        S.cover("roundtrip")
        return
    ad = A.FileSystemAdapter(root)
    if via == "mount":
        vfs = S.sandfs.VirtualFileSystem()
        vfs.mount_storage("/m", ad)
        vfs.write_file("/m/" + name, text)
        S.check(vfs.read_file("/m/" + name) == text, "the mount shows what was written")
        vfs.sync_storage("/m")
        S.check(vfs.read_file("/m/" + name) == text, "also after synchronising")
        vfs.append_file("/m/" + name, text)
        S.check(w.lookup("/host/r/" + name).data == (text + text).encode("utf-8"), "an append stores the whole text")
        vfs2 = S.sandfs.VirtualFileSystem()
        vfs2.mount_storage("/x", A.FileSystemAdapter(root))
        S.check(vfs2.read_file("/x/" + name) == text + text, "another filesystem mounting the directory sees the same text")
    else:
        e = ad.write(name, text, version=0)
        S.check(e.content == text, "a write reports the text written")
        S.check(w.lookup("/host/r/" + name).data == text.encode("utf-8"), "the file holds the text encoded as UTF-8")
        if via == "list":
            S.check(S.eq([(k, v.content) for k, v in ad.list().items()], [(name, text)]), "listing returns exactly the text written")
        else:
            ad2 = ad if via == "api" else A.FileSystemAdapter(root)
            S.check(ad2.read(name).content == text, "reading returns exactly the text written")
    S.cover("roundtrip")


def names(S, A, w, root, where, n):
    part = S.str("name", 1, n, alphabet=".a~# -_*Z")
    S.assume(part != "." and part != "..")
    name = {"top": part, "below": "d/" + part, "dir": part + "/f"}[where]
    foreign = S.flag("foreign")
    if foreign:
        if where != "top":
            w.mkdir("/host/r/" + ("d" if where == "below" else part))
        w.put("/host/r/" + name, "text")
        w.put("/host/r/other", "more")
        ad = A.FileSystemAdapter(root)
    else:
        ad = A.FileSystemAdapter(root)
        ad.write(name, "text", version=0)
        ad.write("other", "more", version=0)
    S.check(S.eq(sorted((k, v.content) for k, v in ad.list().items()), sorted([(name, "text"), ("other", "more")])),
            "every file of the directory is listed under its name, whatever it is called")
    S.check(ad.read(name).content == "text", "and can be read under it")
    vfs = S.sandfs.VirtualFileSystem()
    vfs.mount_storage("/m", ad)
    S.check(vfs.read_file("/m/" + name) == "text", "and through a mount")
    vfs.write_file("/m/" + name, "new")
    S.check(w.lookup("/host/r/" + name).data == b"new", "and is changed under it")
    vfs.remove("/m/" + name)
    S.check(not exist(w, "/host/r/" + name) and exist(w, "/host/r/other"), "and removed under it, alone")
    S.cover("roundtrip")


def history(S, A, w, root, start, firsts, n):
    p = "/host/r/f"
    if start == "present":
        w.put(p, "start")
    ad = A.FileSystemAdapter(root)
    known, clean = (None, False) if start == "present" else (0, True)   # last version seen; nothing happened since
    for k in range(2 + n):
        op = firsts[k] if k < 2 else S.choice("op%d" % k, STEPS)
        exists = True
        try:
            data = w.lookup(p).data
        except OSError:
            exists, data = False, None
        if op == "read":
            ok, e = S.attempt(ad.read, "f", also=(OSError,))
            S.check(ok == exists, "a file can be read exactly while it exists")
            if ok:
                S.check(e.content == data.decode("utf-8"), "a read returns the current text")
                known, clean = e.version, True
            else:
                known, clean = 0, True
        elif op == "list":
            v = ad.list()
            S.check(("f" in v) == exists, "a file is listed exactly while it exists")
            if exists:
                S.check(v["f"].content == data.decode("utf-8"), "with its current text")
                known, clean = v["f"].version, True
            else:
                known, clean = 0, True
        elif op == "write":
            if known is None:
                return
            t = "w%d" % k
            ok, e = S.attempt(ad.write, "f", t, version=known, also=(ValueError, OSError))
            if ok:
                S.check(clean or not exists, "a change made by others and not seen yet is never overwritten")
                S.check(w.lookup(p).data == t.encode("utf-8"), "an accepted write is stored")
                S.check(e.version != known, "and gives a new version")
                known, clean = e.version, True
                S.cover("written")
            else:
                S.cover("conflict")
                S.check(not clean, "a write based on the current state is accepted")
                now = None
                try:
                    now = w.lookup(p).data
                except OSError:
                    pass
                S.check(now == data, "a rejected write changes nothing")
        elif op == "delete":
            ad.delete("f")
            S.check(not exist(w, p), "a deleted file is gone")
            known, clean = 0, True
        elif op in ("ext", "extold"):
            w.put(p, "x%d" % k, None if op == "ext" else 1_000_000_000 - k)
            clean = False
        elif op == "extdel":
            if not exists:
                return
            w.unlink(p)
            clean = False


def exist(w, p):
    try:
        w.lookup(p)
        return True
    except OSError:
        return False
