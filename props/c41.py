BOUNDS = ("20 operations of the API on any of 20 paths (file, directory, missing, below a missing directory, below a file, the root, unreadable, read-only, append-only, failing provider, failing and working directory providers and below them, "
          "storage mount) with an arbitrary policy on one of 5 nodes and an arbitrary expected version; provider failures with any of 6 exceptions and symbolic texts of up to 2 characters; the shell commands on the same paths")
ASSUMPTIONS = ["when several reasons apply any of them may be reported"]
BUDGET = {"quick": 240, "thorough": 700}
COVERS = ("NodeNotFound", "NodeExists", "InvalidOperation", "ProviderError", "fine")

PATHS = ["/f", "/d", "/d/g", "/x", "/x/y", "/f/z", "/", "/u", "/ro", "/ao", "/bad", "/lazy", "/lazy/a", "/m/s", "/m/t", "/d/e", "/ok", "/ok/h", "/ok/x", "/ok/x/y"]
OPS = ["read", "write", "append", "cas", "touch", "mkdir", "mkdirp", "remove", "removeall", "move", "copy", "ls", "cd", "get", "version", "policy", "walk", "tree", "sync", "export"]
SHELL = {"read": "cat P", "write": "write P t", "append": "append P t", "touch": "touch P", "mkdir": "mkdir P", "mkdirp": "mkdir -p P", "remove": "rm P", "removeall": "rm -r P", "move": "mv P /q", "copy": "cp P /q",
         "ls": "ls P", "cd": "cd P", "get": "stat P", "tree": "tree P"}


def cases(tier):
    out = [(f"{o} {p}", {"op": o, "path": p}) for o in OPS for p in PATHS]
    out += [(f"shell {o}", {"op": "shell", "path": o}) for o in SHELL]
    out += [(f"provider {k}", {"op": "provider", "path": k}) for k in ("file", "dir")]
    out += [(f"asks {p}", {"op": "asks", "path": p}) for p in PATHS]
    out += [("unknown", {"op": "unknown", "path": ""})]
    return out


def build(S):
    s = S.sandfs
    v = s.VirtualFileSystem()
    for p in ("/f", "/d/g", "/u", "/ro", "/ao"):
        v.write_file(p, "text of " + p)
    v.mkdir("/d/e")
    v.set_policy("/u", s.NodePolicy(readable=False))
    v.set_policy("/ro", s.NodePolicy(writable=False))
    v.set_policy("/ao", s.NodePolicy(append_only=True))

    def bad(ctx):
        raise KeyError("broken source")
    v.mount_file("/bad", bad)
    v.mount_directory("/lazy", bad)
    v.mount_storage("/m", S.mod("adapters").MemoryStorageAdapter({"s": "stored"}))
    v.mount_directory("/ok", lambda ctx: {"h": s.ProvidedNode.file(content="here")})
    who = S.choice("who", ["/d", "/d/g", "/m", "/f", "/ok"])
    pol = s.NodePolicy(readable=S.bool("r"), writable=S.bool("w"), append_only=S.bool("ao"))
    v.set_policy(who, pol)
    return v


KIND = {"/": "d", "/f": "f", "/d": "d", "/d/g": "f", "/d/e": "d", "/u": "f", "/ro": "f", "/ao": "f", "/bad": "bad", "/lazy": "lazy", "/m": "d", "/m/s": "f", "/ok": "d", "/ok/h": "f"}
VERSION = {"/f": 1, "/d/g": 1, "/u": 1, "/ro": 1, "/ao": 1, "/bad": 0, "/m/s": 0, "/ok/h": 0}


def parent(p):
    return p[:p.rfind("/")] or "/"


def find(p):
    """How looking the path up ends: a kind of node, or the reason why there is none."""
    if p in KIND:
        return KIND[p]
    up = find(parent(p))
    if up == "lazy":
        return "ProviderError"
    if up in ("f", "bad"):
        return "InvalidOperation"
    if up == "d":
        return "NodeNotFound"
    return up


def creatable(p):
    """NodeNotFound only means that something may be created there."""
    r = find(p)
    return r == "NodeNotFound"


def reasons(S, v, op, p, target=None, version=None):
    """Every reason for which the operation has to fail, in the words of the exceptions; empty if it must succeed."""
    k = find(p)
    out = set()

    def pol(q):
        return v.get_node(q).policy

    def existing(q):
        while q not in KIND:
            q = parent(q)
        return q
    missing = k not in ("f", "d", "bad", "lazy")
    if op in ("read", "ls", "cd", "get", "version", "policy", "walk", "tree", "remove", "removeall", "move", "copy", "export"):
        if missing:
            out.add(k)
            if op == "version" and k == "InvalidOperation":
                pass
            return out
        policy = pol(p)
        if op == "read":
            if k in ("d", "lazy"):
                out.add("InvalidOperation")
            if k == "bad":
                out.add("ProviderError")
            if not policy.readable:
                out.add("InvalidOperation")
        if op in ("ls", "cd", "tree", "export"):
            if k in ("f", "bad"):
                out.add("InvalidOperation")
            if op != "export" and not policy.readable:
                out.add("InvalidOperation")
            if k == "lazy" and op != "cd":
                out.add("ProviderError")
        if op == "version" and k in ("d", "lazy"):
            out.add("InvalidOperation")
        if op in ("walk", "tree", "export") and p == "/":
            out.add("ProviderError")
        if op == "walk" and k == "lazy":
            out.add("ProviderError")
        if op in ("remove", "removeall"):
            if p == "/":
                out.add("InvalidOperation")
                return out
            if not policy.writable or policy.append_only or not pol(parent(p)).writable or pol(parent(p)).append_only:
                out.add("InvalidOperation")
            if k == "lazy":
                out.add("ProviderError")
            if p in ("/d", "/ok"):
                if op == "remove":
                    out.add("InvalidOperation")
                elif p == "/d" and not pol("/d/g").writable or p == "/d" and pol("/d/g").append_only:
                    out.add("InvalidOperation")
        if op == "move":
            if p == "/":
                out.add("InvalidOperation")
                return out
            if not policy.writable or policy.append_only or not pol(parent(p)).writable or pol(parent(p)).append_only:
                out.add("InvalidOperation")
        if op == "copy":
            if k in ("d", "lazy"):
                out.add("InvalidOperation")
            if not policy.readable:
                out.add("InvalidOperation")
            if k == "bad":
                out.add("may ProviderError")
        return out
    if op == "sync":
        if p != "/m":
            out.add("InvalidOperation")
        return out
    append = op in ("append", "touch")
    if op in ("mkdir", "mkdirp"):
        if k in ("f", "bad"):
            out.add("InvalidOperation")
        elif k in ("d", "lazy"):
            if op == "mkdir" and p != "/":
                out.add("NodeExists")
            if op == "mkdir" and p == "/":
                out.add("may NodeExists")
        elif k != "NodeNotFound":
            out.add(k)
        else:
            at = pol(existing(p))
            if not at.writable or at.append_only:
                out.add("InvalidOperation")
            if op == "mkdir" and existing(p) != parent(p):
                out.add("NodeNotFound")
        return out
    # write, append, cas, touch
    if k in ("d", "lazy"):
        out.add("InvalidOperation")
    elif missing and k != "NodeNotFound":
        out.add(k)
    elif k == "NodeNotFound":
        if not pol(existing(p)).writable:
            out.add("InvalidOperation")
        if version is not None and version != 0:
            out.add("InvalidOperation")
    else:
        policy = pol(p)
        if not policy.writable or (policy.append_only and not append):
            out.add("InvalidOperation")
        if version is not None and version != VERSION[p]:
            out.add("InvalidOperation")
        if k == "bad" and op == "append":
            out.add("ProviderError")
    return out


def call(S, v, op, p, version):
    if op == "read":
        return v.read_file(p)
    if op in ("write", "cas"):
        return v.write_file(p, "t", expected_version=version)
    if op == "append":
        return v.append_file(p, "t")
    if op == "touch":
        return v.touch(p)
    if op == "mkdir":
        return v.mkdir(p)
    if op == "mkdirp":
        return v.mkdir(p, parents=True, exist_ok=True)
    if op == "remove":
        return v.remove(p)
    if op == "removeall":
        return v.remove(p, recursive=True)
    if op == "move":
        return v.move(p, "/q")
    if op == "copy":
        return v.copy(p, "/q")
    if op == "ls":
        return v.ls(p)
    if op == "cd":
        return v.cd(p)
    if op == "get":
        return v.get_node(p)
    if op == "version":
        return v.get_version(p)
    if op == "policy":
        return v.set_policy(p, S.sandfs.NodePolicy())
    if op == "walk":
        return [str(q) for q, _ in v.walk(p)]
    if op == "tree":
        return v.tree(p)
    if op == "sync":
        return v.sync_storage(p)
    return v.export_to_path(S.pathlib.Path("/out"), source=p)


def run(S, op, path):
    if op == "provider":
        return provider(S, path)
    if op == "asks":
        return asks(S, path)
    if op == "unknown":
        return unknown(S)
    v = build(S)
    line = None
    if op == "shell":
        op, p = path, S.choice("path", PATHS)
        line = SHELL[op].replace("P", p)
    else:
        p = path
    version = S.int("expected", 0, 2) if op == "cas" else None
    want = reasons(S, v, op, p, version=version)
    if line:
        r = S.sandfs.SandboxShell(v).exec(line)
        if op == "move" and find(p) == "lazy" or line.startswith("ls") and find(p) in ("f", "bad") or line.startswith("stat") and find(p) == "bad":
            return
        S.check(r.exit_code == 0 if not want else r.exit_code != 0 or all(w.startswith("may") for w in want), "the command fails exactly when there is a reason")
        S.check(r.exit_code == 0 or r.stderr != "", "and says so")
        S.check(r.exit_code != 0 or r.stderr == "", "a command that succeeds complains about nothing")
        S.cover("fine")
        return
    try:
        call(S, v, op, p, version)
        got = None
    except Exception as exc:
        got = type(exc).__name__
        S.check(str(exc) != "", "a failure comes with a text")
        if got == "ProviderError":
            S.check("broken source" in str(exc) and exc.__cause__ is not None and type(exc.__cause__).__name__ == "KeyError", "the failure of a provider is passed on")
    if got is None:
        S.check(all(w.startswith("may") for w in want), "what cannot be done is refused")
        S.cover("fine")
    else:
        S.cover(got)
        S.check(S.any([got == w.replace("may ", "") for w in want]), "the error says what is wrong")


def asks(S, p):
    """Asking whether something is there is answered, whatever is there."""
    v = build(S)
    k = find(p)
    want = {"exists": k in ("f", "d", "bad", "lazy"), "is_dir": k in ("d", "lazy"), "is_file": k in ("f", "bad")}
    order = S.choice("first", ["exists", "is_dir", "is_file"])
    for name in [order] + sorted(want):
        ok, got = S.attempt(getattr(v, name), p)
        if k == "ProviderError":
            S.check(not ok and type(got).__name__ == "ProviderError", "only the failure of a provider is passed on")
        else:
            S.check(ok and got is want[name], "whether something exists is always answered")
    S.cover("fine")


def provider(S, kind):
    s = S.sandfs
    v = s.VirtualFileSystem()
    text = S.str("text", 0, 2)
    name = S.choice("exc", ["ValueError", "OSError", "SandboxError", "NodeNotFound", "ZeroDivisionError", "RuntimeError"])

    def bad(ctx):
        cls = {"ValueError": ValueError, "OSError": OSError, "ZeroDivisionError": ZeroDivisionError, "RuntimeError": RuntimeError}.get(name) or getattr(S.exc, name)
        raise cls(text)
    if kind == "file":
        v.mount_file("/p", bad)
        ok, e = S.attempt(v.read_file, "/p")
    else:
        v.mount_directory("/p", bad)
        ok, e = S.attempt(v.ls, "/p")
    S.check(not ok and type(e).__name__ == "ProviderError", "the failure of a provider is reported as such")
    S.check(text in str(e) and str(e) != "", "with its text")
    S.check(e.__cause__ is not None and type(e.__cause__).__name__ == name, "and its cause")
    S.cover("ProviderError")
    r = s.SandboxShell(v).exec("cat /p" if kind == "file" else "ls /p")
    S.check(r.exit_code != 0 and text in r.stderr and r.stderr != "", "in the shell too")


def unknown(S):
    v = S.sandfs.VirtualFileSystem()
    v.write_file("/f", "x")
    sh = S.sandfs.SandboxShell(v)
    word = S.str("word", 1, 3, alphabet="abcdflsmv")
    S.assume(S.all([word != c for c in sh.available_commands]) if hasattr(sh, "available_commands") and not callable(sh.available_commands) else S.all([word != c for c in sh.commands]))
    r = sh.exec(word + " /f")
    S.check(r.exit_code == 127 and word in r.stderr and r.stdout == "", "an unknown command is reported as such")
    for line in ("cat 'a", 'cat "a', "cat |", "| cat", "cat >", "cat <"):
        r = sh.exec(line)
        S.check(r.exit_code == 2 and r.stderr != "" and r.stdout == "", "a malformed line is reported as such")
    for line in ("cd", "cd /a /b", "touch", "mkdir", "mkdir -p", "rm", "rm -r", "cp /f", "cp", "mv /f", "mv", "write", "append /f", "grep", "stat"):
        r = sh.exec(line)
        S.check(r.exit_code == 2 and r.stderr != "" and r.stdout == "", "missing operands are reported as such")
    S.check(v.read_file("/f") == "x" and [str(p) for p, _ in v.walk("/")] == ["/", "/f"], "nothing is changed")
    S.cover("fine")
