from props import lib
from props.lib import Done

BOUNDS = ("two filesystems, two shells on the first and one on the second, made from the same dictionaries, lists, policies and views; 2 (thorough: 3) operations out of 36 on the first — all API calls and shell commands that keep state — with texts and values of up to 2 arbitrary characters; "
          "then the second filesystem and shells, the caller's own objects, and filesystems, shells, policies and back ends made afterwards are examined")
ASSUMPTIONS = []
BUDGET = {"quick": 200, "thorough": 700}
COVERS = ("vfs", "shell", "new")

OPS = ["write", "append", "mkdir", "cd", "policy", "principals", "metadata", "mount_file", "mount_directory", "mount_storage", "hook", "path hook", "index", "search view", "snapshot", "restore", "remove", "move", "copy",
       "VAR", "VAR prefix", "export env", "register", "override", "unregister", "python", "python globals", "python builtins", "python def", "sh search", "host", "allow", "inbox", "query", "own one", "own two"]


def cases(tier):
    return [(o, {"op": o}) for o in OPS]


def run(S, op):
    sf = S.sandfs
    env = {"A": "a", "B": "b"}
    allowed = ["echo", "x", "cat", "python", "grep", "search", "help"]
    meta = {"k": "v"}
    tags = {"x"}
    stored = {"s": "stored"}
    make = lambda: sf.VirtualFileSystem()
    one, two = make(), make()
    for v in (one, two):
        v.write_file("/f", "text")
        v.write_file("/d/g", "text")
        v.mount_file("/m", lambda ctx: "provided", metadata=meta)
        v.set_policy("/d/g", sf.NodePolicy(principals=set(tags)))
    P = sf.ProvidedNode
    given = {"f": P.file(content="x", metadata=meta), "d": P.directory(children={"g": P.file(content="x", metadata=meta)}, metadata=meta)}
    for v in (one, two):
        v.mount_directory("/given", lambda ctx: given, metadata=meta)
        v.exists("/given/f")
    template, names_given = {"given": 7}, {"extra": 8}
    runs = [sf.PythonExecutor(v, globals_template=template, builtins=names_given) for v in (one, two)]
    shells = [sf.SandboxShell(one, env=env, python_executor=runs[0]), sf.SandboxShell(one, env=env), sf.SandboxShell(two, env=env, python_executor=runs[1])]
    shells[1].register_command("own", lambda args: "1" + args[0])
    shells[2].register_command("own", lambda args, ctx: "2" + args[0] + str(ctx.vfs is two))
    blank = {}
    for sh in (sf.SandboxShell(one, env=blank), sf.SandboxShell(two, env=blank)):
        S.check(sh.exec("echo $EXTRA").stdout.strip() == "", "an empty environment stays empty for others")
        sh.exec("EXTRA=1")
    S.check(blank == {}, "the caller's own objects are left alone")
    names = [s.available_commands() for s in shells]
    fresh = facts(S)
    stores = [sf.MemoryStorageAdapter(stored), sf.MemoryStorageAdapter(stored)]
    before = lib.dump(two, times=True)
    said = [sh.exec("echo $A $B $C $ENV").stdout for sh in shells]
    events = []
    n = 3 if S.thorough else 2
    texts = [S.str("t%d" % k, 1, 2 if k == 0 else 1) for k in range(n)]
    seen = None
    for k in range(n):
        what = op if k == 0 else S.choice("op%d" % k, OPS)
        ok, got = S.attempt(do, S, what, one, shells[0], stores[0], texts[k], events, seen)
        seen = got if ok else seen
    # the second filesystem
    S.check(lib.same(S, lib.dump(two, times=True), before), "nothing done in one filesystem shows in another")
    S.check(two.pwd() == "/", "not even the working directory")
    S.check(len(two.search(sf.SearchQuery("text"))) == 2, "searches stay separate")
    count = len(events)
    two.write_file("/f", "again")
    two.remove("/f")
    two.write_file("/f", "text")
    S.check(len(events) == count, "hooks hear only of their own filesystem")
    S.check(stores[1].read("s").content == "stored" and stores[1].list()["s"].version == 0, "back ends made from one mapping are separate")
    S.cover("vfs")
    # the other shells
    for i in (1, 2):
        S.check(shells[i].available_commands() == names[i], "commands belong to their shell")
        S.check(shells[i].exec("echo $A $B $C $ENV").stdout == said[i], "variables belong to their shell")
    S.check(shells[1].exec("own x").stdout == "1x" and shells[2].exec("own x").stdout == "2xTrue", "each shell calls its own command, as it was registered there")
    S.check(shells[2].exec("cat /f").stdout == "text" and shells[2].exec("search text /").exit_code == 0, "the other shell works on its own filesystem")
    r = shells[2].exec("python -c 'print(len(str(5)))'")
    S.check(r.exit_code == 0 and r.stdout == "1\n", "snippets of other shells find everything as usual")
    r = shells[2].exec("python -c 'print(leaked)'")
    S.check(r.exit_code != 0, "and nothing left by others")
    r = runs[1].run("print(fs is vfs, given, extra, len(fs.read_file('/f')))\nmine = fs")
    S.check(r.stdout == "True 7 8 4\n" and r.globals["mine"] is two, "snippets of another filesystem work on that one")
    S.check(runs[0].run("mine = vfs").globals["mine"] is one, "snippets of the first on the first")
    S.check(template == {"given": 7} and names_given == {"extra": 8}, "the caller's own objects are left alone")
    S.cover("shell")
    # the caller's own objects
    S.check(env == {"A": "a", "B": "b"} and meta == {"k": "v"} and tags == {"x"} and stored == {"s": "stored"} and len(allowed) == 7, "the caller's own objects are left alone")
    # things made afterwards
    S.check(facts(S) == fresh, "what is made afterwards starts afresh")
    S.cover("new")


def facts(S):
    """What a new filesystem, shell, policy, view and back end look like."""
    sf = S.sandfs
    v = sf.VirtualFileSystem()
    sh = sf.SandboxShell(v)
    p = sf.NodePolicy()
    out = [[str(x) for x, _ in v.walk("/")], v.pwd(), sh.available_commands(), sorted(sh.env.items()), sorted(p.principals), p.classification, p.readable, p.writable,
           sorted(sf.MemoryStorageAdapter().list()), sf.VisibilityView().allows(p), len(S.mod("integrations").InboxRecorder().events)]
    v.write_file("/n", "text")
    node = v.get_node("/n")
    out += [sorted(node.metadata.items()), lib.pol(node), node.version, [str(r.path) for r in v.search(sf.SearchQuery("text"))], sh.exec("help").stdout, sh.exec("python -c 'print(len(str(5)))'").stdout]
    out.append(sorted(sf.VirtualFileSystem().get_node("/").metadata.items()))
    return out


def do(S, what, vfs, sh, store, t, events, seen):
    sf = S.sandfs
    if what == "write":
        vfs.write_file("/f", t)
        vfs.write_file("/new", t)
    elif what == "append":
        vfs.append_file("/f", t)
    elif what == "mkdir":
        vfs.mkdir("/e/e", parents=True, exist_ok=True)
    elif what == "cd":
        vfs.cd("/d")
    elif what == "policy":
        vfs.set_policy("/f", sf.NodePolicy(readable=False, classification=t))
    elif what == "principals":
        vfs.get_policy("/m").principals.add(t)
        vfs.get_policy("/d/g").principals.add(t)
        vfs.get_policy("/").principals.add("x")
        vfs.get_policy("/").principals.discard("x")
    elif what == "metadata":
        vfs.get_node("/m").metadata["k"] = t
        vfs.get_node("/f").metadata["k"] = t
        vfs.get_node("/").metadata["k"] = t
        for p in ("/given", "/given/f", "/given/d", "/given/d/g"):
            vfs.get_node(p).metadata["k"] = t
        vfs.write_file("/given/d/g", t)
    elif what == "mount_file":
        vfs.mount_file("/p", lambda ctx: t, metadata={"k": t})
    elif what == "mount_directory":
        vfs.mount_directory("/q", lambda ctx: {"r": sf.ProvidedNode.file(content=t)}, metadata={"k": t})
        vfs.read_file("/q/r")
    elif what == "mount_storage":
        vfs.mount_storage("/s", store)
        vfs.write_file("/s/s", t)
        vfs.write_file("/s/n", t)
    elif what == "hook":
        vfs.register_write_hook("/", lambda e: events.append(e))
    elif what == "path hook":
        vfs.register_path_hook("/", lambda e: events.append(e))
    elif what == "index":
        vfs.enable_full_text_index()
        vfs.write_file("/new", "text " + t)
    elif what == "search view":
        vfs.enable_search_view()
        sh.exec("ls '/@search?q=text'")
    elif what == "snapshot":
        return vfs.snapshot()
    elif what == "restore":
        vfs.restore(seen or vfs.snapshot())
    elif what == "remove":
        S.attempt(vfs.remove, "/d", recursive=True)
    elif what == "move":
        S.attempt(vfs.move, "/f", "/g")
    elif what == "copy":
        S.attempt(vfs.copy, "/f", "/h")
    elif what == "VAR":
        sh.exec("A='v' C=w")
    elif what == "VAR prefix":
        sh.exec("A=v echo x")
    elif what == "export env":
        sh.env["A"] = t
        sh.env["ENV"] = t
    elif what == "register":
        sh.register_command("x", lambda args: t, description="new")
    elif what == "own one":
        sh.register_command("own", lambda args: t)
        sh.exec("own a")
    elif what == "own two":
        sh.register_command("own", lambda args, ctx: t)
        sh.exec("own a")
    elif what == "override":
        sh.register_command("cat", lambda args: t, description="other")
        sh.exec("cat /f")
    elif what == "unregister":
        sh.commands.pop("echo", None)
        sh.command_docs.pop("cat", None)
    elif what == "python":
        sh.exec("python -c 'leaked = 5'")
    elif what == "python globals":
        sh.exec("python -c 'global leaked; leaked = 5; len = 3; str = 4'")
    elif what == "python builtins":
        sh.exec("python -c '__builtins__.update(leaked=5); __builtins__.pop(\"len\")'")
    elif what == "python def":
        sf.PythonExecutor(vfs, builtins={"leaked": 5, "len": 3}, globals_template={"leaked": 5, "str": t}).run("x = leaked")
    elif what == "sh search":
        sh.exec("search text /")
        sh.exec("grep -rn text /")
    elif what == "host":
        S.fs.handler = lambda argv, cwd, data, env: Done(argv, 0, "", "")
        sh.exec("host ls")
    elif what == "allow":
        a = ["echo"]
        other = sf.SandboxShell(vfs, allowed_commands=a)
        a.append("cat")
        other.exec("echo x")
        S.check(other.exec("cat /f").exit_code != 0, "a shell keeps its own list of allowed commands")
    elif what == "inbox":
        S.mod("integrations").InboxRecorder().attach(vfs, "/")
        vfs.write_file("/new", t)
    elif what == "query":
        vfs.search(sf.SearchQuery("text"), view=sf.VisibilityView(principals=["x"]))
    return seen
