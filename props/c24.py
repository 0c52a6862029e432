from props import lib

BOUNDS = ("every built-in command with 0-2 operands out of 26 odd ones (missing, directory, file, unreadable, read-only, escaping, empty, option-like, incomplete options, bad numbers, "
          "bad patterns, search-view paths) and redirections; arbitrary command lines of up to 4 (thorough: 5) characters over 9 characters; scripted failures of host processes, content providers, directory providers, storage back "
          "ends, hooks and registered commands (any of 13 exceptions, some without text or error number, wrong return types); symbolic texts of up to 1 character in the files")
ASSUMPTIONS = ["exceptions that are not ordinary errors (KeyboardInterrupt, SystemExit, running out of memory) pass through"]
BUDGET = {"quick": 240, "thorough": 700}
COVERS = ("ok", "failed")

CMDS = ["pwd", "cd", "ls", "cat", "touch", "mkdir", "rm", "cp", "mv", "tree", "write", "append", "echo", "printf", "wc", "grep", "rg", "search", "host", "bash", "help", "stat", "head", "tail",
        "find", "nosuch"]
OPERANDS = ["/f", "/d", "/d/g", "/x/y", "/", "..", "''", "/u", "/ro", "/f/x", "-n", "-c", "-l", "-r", "-e", "-name", "-type", "--", "-5", "'['", "'*'", "'(a'", "%d", "%s%s", "-p", "'/@search?q='", "'/@search?q=(&regex=1'",
            "/@search", "zz", "$V", "${V", "/prov", "/lazy", "/lazy/a", "/m/f"]
LETTERS = "a '$>|\\*?"
EXC = ["bare SandboxError", "ValueError", "KeyError", "OSError", "UnicodeDecodeError", "RecursionError", "SandboxError", "NodeNotFound", "ProviderError", "AssertionError", "StopIteration", "bare RuntimeError", "bare OSError", "plain OSError"]


def cases(tier):
    out = [(f"cmd {c} {'' if i is None else i}", {"kind": "cmd", "arg": c, "i": i}) for c in CMDS for i in ([None] if tier == "quick" else list(range(len(OPERANDS))))]
    out += [(f"line {c}", {"kind": "line", "arg": c, "i": 4 if tier == "thorough" else 3}) for c in LETTERS]
    out += [(f"fault {w}", {"kind": "fault", "arg": w, "i": 0}) for w in ("provider", "dirprovider", "badprovider", "adapter", "hook", "pathhook", "command", "host", "returns")]
    return out


def checked(S, sh, line, where=""):
    try:
        r = sh.exec(line)
    except Exception as exc:
        S.check(False, "exec returns a result instead of raising" + where)
        raise
    good = hasattr(r, "stdout") and hasattr(r, "stderr") and hasattr(r, "exit_code")
    S.check(good and r.stdout is not None and r.stderr is not None, "exec returns a result")
    S.check(isinstance(r.exit_code, int), "with an exit code" + where)
    S.check(r.exit_code == 0 or r.stderr != "", "a failure comes with a message" + where)
    S.cover("ok" if r.exit_code == 0 else "failed")
    return r


def build(S):
    s = S.sandfs
    vfs = s.VirtualFileSystem()
    vfs.write_file("/f", S.str("text", 1, 1, alphabet="a%\n\u20ac"))
    vfs.write_file("/d/g", "a\n")
    vfs.write_file("/u", "a")
    vfs.set_policy("/u", s.NodePolicy(readable=False))
    vfs.write_file("/ro", "a")
    vfs.set_policy("/ro", s.NodePolicy(writable=False))
    vfs.enable_search_view()

    def bad(ctx):
        raise ValueError("provider broke")
    vfs.mount_file("/prov", bad)
    vfs.mount_directory("/lazy", bad)
    vfs.mount_storage("/m", S.mod("adapters").MemoryStorageAdapter({"f": "a"}))
    return vfs


def run(S, kind, arg, i):
    s = S.sandfs
    if kind == "line":
        vfs = s.VirtualFileSystem()
        vfs.write_file("/a", "a")
        sh = s.SandboxShell(vfs)
        sh.register_command("a", lambda args, ctx: ctx.stdin)
        line = "a" + arg + S.str("rest", 0, i, alphabet=LETTERS)
        checked(S, sh, line)
        checked(S, sh, line[1:])
        return
    if kind == "fault":
        return fault(S, arg)
    vfs = build(S)
    sh = s.SandboxShell(vfs, env={"V": "a b"}, host_fallback=S.flag("fallback") if arg in ("nosuch", "ls") else False)
    S.fs.handler = lambda argv, cwd, data, env: lib.Done(argv, 0, "out", "")
    n = S.pick("n", 3) if i is None else 2
    words = [arg]
    if n:
        words.append(S.choice("o1", OPERANDS) if i is None else OPERANDS[i])
    if n == 2:
        words.append(S.choice("o2", OPERANDS if i is not None else ["/f", "/x/y", "''", "-n", "'['", "/d", "-name", "/ro", "/"]))
    redirect = S.choice("redirect", ["", " < /f", " > /d", " | cat"]) if S.thorough or n == 0 else ""
    # some operands only fail while the result is being used: the line must still return
    r = checked(S, sh, " ".join(words) + redirect)
    r = checked(S, sh, "pwd")
    S.check(r.exit_code == 0, "the shell stays usable")


def fault(S, where):
    s = S.sandfs
    name = S.choice("exc", EXC if where == "command" else EXC[1:])

    def boom(*a, **k):
        if name == "UnicodeDecodeError":
            raise UnicodeDecodeError("utf-8", b"x", 0, 1, "bad")
        if name == "OSError":
            raise OSError(5, "broken")
        if name == "bare RuntimeError":
            raise RuntimeError()
        if name == "bare SandboxError":
            raise S.exc.SandboxError()
        if name == "bare OSError":
            raise OSError()
        if name == "plain OSError":
            raise OSError("broken")
        if name == "KeyError":
            raise KeyError("k")
        if name == "RecursionError":
            raise RecursionError("deep")
        if name == "AssertionError":
            raise AssertionError("odd")
        if name == "StopIteration":
            raise StopIteration("odd")
        if name == "ValueError":
            raise ValueError("bad")
        raise getattr(S.exc, name)("bad")
    vfs = s.VirtualFileSystem()
    vfs.write_file("/f", "a\n")
    lines = ["cat /p", "cat < /p", "echo x >> /p", "echo x > /p", "append /p x", "write /p x", "grep -r a /", "grep a /p", "search a", "rg a /p", "cp /p /q", "mv /p /q", "stat /p", "head /p", "tail /p",
             "wc /p", "tree", "find /", "ls /", "ls /p", "echo /p/*", "echo /*", "cd /p", "cat /p/x", "rm -r /p", "touch /p", "touch /p/x", "mkdir /p/x", "cp -r /p /q", "cp /f /p", "cp /f /p/f", "mv /f /p", "host add", "rm /f", "touch /new",
             "echo x > /new", "host x", "bash -c x"]
    sh = s.SandboxShell(vfs)

    def process(argv, cwd, data, env):
        if argv[-1] == "add":       # changes a file of the storage back end
            try:
                S.fs.lookup(cwd + "/p/f")
            except OSError:
                pass
            else:
                S.fs.put(cwd + "/p/f", "changed")
        return lib.Done(argv, 0, "out", "")
    S.fs.handler = process
    if where == "provider":
        vfs.mount_file("/p", boom)
    elif where == "dirprovider":
        vfs.mount_directory("/p", boom)
    elif where == "badprovider":
        vfs.mount_directory("/p", lambda ctx: {"a": 5, "": "x", "b/c": "y"} if name != "KeyError" else 7)
        vfs.mount_file("/p2", lambda ctx: 5)
        lines.append("cat /p2")
    elif where == "adapter":
        adapter = S.mod("adapters").MemoryStorageAdapter({"f": "a"})
        vfs.mount_storage("/p", adapter)
        for method in ("write", "delete", "list", "read"):
            setattr(adapter, method, boom)
        lines += ["echo x > /p/f", "rm /p/f", "touch /p/new", "append /p/f x", "cat /p/f"]
    elif where == "hook":
        vfs.register_write_hook("/", boom)
    elif where == "pathhook":
        vfs.register_path_hook("/", boom)
    elif where == "command":
        sh.register_command("c", boom)
        sh.register_command("d", lambda args: boom())
        lines = ["c", "c | cat", "echo x | c", "d", "d > /x"]
    elif where == "host":
        S.fs.handler = boom
        sh = s.SandboxShell(vfs, host_fallback=True)
        lines = ["host x", "bash -c x", "sh", "nosuch", "ls -a", "echo x | nosuch"]
    else:
        value = S.choice("value", [5, [], 1.5, {}, True, "text", None])
        sh.register_command("c", lambda args: value)
        lines = ["c", "c | cat", "c > /x"]
        for line in lines:
            checked(S, sh, line, " (" + line + ")")
        return
    line = S.choice("line", lines)
    checked(S, sh, line, " (" + line + ")")
    r = checked(S, sh, "pwd")
    S.check(r.exit_code == 0, "the shell stays usable")
