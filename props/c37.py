BOUNDS = ("every API operation (22) and built-in command (47 lines, unsupported options included) with path words of up to 3 (thorough: 4) characters out of '/', '.', '~', a name, and host paths such as /etc/passwd; the host offers files of these names; python snippets using names of the host's functions; 29 lines with names starting with a tilde, or %TEMP%, that exist in the tree; shells with and without a list of allowed commands naming host, bash and sh")
ASSUMPTIONS = ["what a Python snippet can reach by introspecting objects is not covered: the interpreter is not a security boundary", "host, bash and sh commands, host fallback, exports and the directory adapter are the documented ways to the host"]
BUDGET = {"quick": 200, "thorough": 700}
COVERS = ("api", "line", "python")

API = ["read", "write", "append", "mkdir", "touch", "remove", "move", "copy", "ls", "walk", "iter_files", "glob", "tree", "search", "exists", "cd", "get_version", "mount_file", "mount_directory", "mount_storage", "snapshot", "hook"]
LINES = ["cat W", "ls W", "ls -l W", "cd W", "touch W", "mkdir -p W", "rm -r W", "cp -r W /c", "cp /v W", "mv W /c", "mv /v W", "tree W", "write W x", "append W x", "echo x > W", "echo x >> W", "cat < W", "wc W", "grep x W", "grep -r x W", "rg x W",
         "search x W", "stat W", "head W", "tail W", "find W -name '*'", "echo W*", "A=W cat $A", "nonsense W", "python W", "python3 W", "python -c W", "help W", "python < W",
         "ls -a W", "ls -la W", "cat -n W", "grep -v x W", "rm -rf W", "find W -exec x", "head -c 1 W", "tail -f W", "wc -m W", "tree -L 1 W", "W", "W x", "ls --all W"]
PY = ["open('/etc/passwd')", "open('/tmp/x', 'w')", "import os", "from os import system", "__import__('os')", "eval('1')", "exec('1')", "compile('1', 'x', 'eval')", "input()", "globals()", "getattr(fs, 'x')", "breakpoint()", "vars(fs)", "exit()", "print(__file__)", "print(__loader__)"]
HOST = ["/etc/passwd", "/home/h", "../../etc/passwd", "~/x", "~", "/tmp/../etc/passwd"]


TILDE = ["cd {d}", "ls {d}", "cat {f}", "cat < {f}", "wc {f}", "head {f}", "tail {f}", "grep x {f}", "grep -r x {d}", "rg x {d}", "search x {d}", "stat {d}", "find {d}", "tree {d}", "cp {f} /n", "cp -r {d} /n", "mv {f} /n", "mv {d} /n", "cp /v {d}",
         "mv /v {d}", "touch {f}", "write {f} x", "append {f} x", "echo x > {f}", "echo x >> {f}", "rm {f}", "rm -r {d}", "mkdir -p {d}/s", "mkdir {d}/s"]


def tilde(S, line):
    """Names starting with a tilde are names like any other."""
    vfs = S.sandfs.VirtualFileSystem()
    twin = S.sandfs.VirtualFileSystem()
    name = S.choice("name", ["~", "~root", "~a", "~+", "~-", "%TEMP%"])
    for v, n in ((vfs, name), (twin, "plain")):
        v.write_file("/v", "x")
        v.write_file("/" + n + "/f", "x")
        v.write_file("/home/h/f", "x")
        v.write_file("/root/f", "x")
    home = S.flag("home")
    got = S.sandfs.SandboxShell(vfs, env={"HOME": "/home/h"} if home else {}).exec(line.format(d=name, f=name + "/f"))
    want = S.sandfs.SandboxShell(twin).exec(line.format(d="plain", f="plain/f"))
    S.check(got.exit_code == want.exit_code == 0, "names with a tilde are names like any other")
    S.check(sorted(fix(str(p), name) for p, x in vfs.walk("/")) == sorted(str(p) for p, x in twin.walk("/")), "and have the same effect")
    S.check(fix(vfs.pwd(), name) == twin.pwd(), "on the working directory too")


def fix(p, name):
    return "/".join("plain" if x == name else x for x in p.split("/"))


def cases(tier):
    out = [("api " + a, {"kind": "api", "arg": a}) for a in API]
    out += [("line " + l, {"kind": "line", "arg": l}) for l in LINES]
    out += [("tilde " + l, {"kind": "tilde", "arg": l}) for l in TILDE]
    out += [("python %d" % i, {"kind": "python", "arg": i}) for i in range(len(PY))]
    return out


def run(S, kind, arg):
    S.fs.put("/etc/passwd", "secret")
    S.fs.mkdir("/home/h")
    S.fs.put("/home/h/x", "secret")
    S.fs.put("/a", "secret")
    S.fs.put("/work/a", "secret")
    S.fs.mkdir("/work/h")
    calls = []
    S.fs.handler = lambda *a: calls.append(a)
    host = S.fs.tree("/")
    mark = len(S.fs.log)
    vfs = S.sandfs.VirtualFileSystem()
    vfs.write_file("/v", "x")
    vfs.write_file("/d/v", "x")
    every = ["host", "bash", "sh"] + sorted(set(l.split()[0] for l in LINES))
    sh = S.sandfs.SandboxShell(vfs, allowed_commands=S.choice("allowed", [None, every]))
    if kind == "tilde":
        tilde(S, arg)
    elif kind == "python":
        code = PY[arg]
        r = sh.exec('python -c "' + code + '"')
        S.check(r.exit_code != 0 and r.stdout == "", "snippets have no names to reach the host with")
        S.cover("python")
    else:
        w = S.str("w", 1, 4 if S.thorough else 3, "/.~a") if S.pick("own", 2) else S.choice("host", HOST)
        if kind == "api":
            api(S, vfs, arg, w)
            S.cover("api")
        else:
            r = sh.exec(arg.replace("W", w))
            S.check("secret" not in r.stdout, "nothing of the host is shown")
            S.cover("line")
    S.check(len(S.fs.log) == mark, "no host file is looked at")
    S.check(calls == [], "no host process is started")
    S.check(S.fs.tree("/") == host, "nothing on the host changes")


def api(S, vfs, arg, w):
    sf = S.sandfs
    fn = {
        "read": lambda: vfs.read_file(w), "write": lambda: vfs.write_file(w, "x"), "append": lambda: vfs.append_file(w, "x"), "mkdir": lambda: vfs.mkdir(w, parents=True, exist_ok=True),
        "touch": lambda: vfs.touch(w), "remove": lambda: vfs.remove(w, recursive=True), "move": lambda: vfs.move("/v", w), "copy": lambda: vfs.copy("/d", w, recursive=True),
        "ls": lambda: vfs.ls(w), "walk": lambda: list(vfs.walk(w)), "iter_files": lambda: list(vfs.iter_files(w)), "glob": lambda: vfs.glob(w + "*"), "tree": lambda: vfs.tree(w),
        "search": lambda: vfs.search(sf.SearchQuery("x", path_prefix=S.pathlib.PurePosixPath(w))), "exists": lambda: (vfs.exists(w), vfs.is_dir(w), vfs.is_file(w)), "cd": lambda: vfs.cd(w),
        "get_version": lambda: vfs.get_version(w), "mount_file": lambda: vfs.mount_file(w, lambda c: "x"), "mount_directory": lambda: (vfs.mount_directory(w, lambda c: {}), vfs.ls(w)),
        "mount_storage": lambda: (vfs.mount_storage(w, sf.MemoryStorageAdapter({w: "x"})), vfs.sync_storage(w)), "snapshot": lambda: (vfs.write_file(w, "x"), vfs.restore(vfs.snapshot())),
        "hook": lambda: (vfs.register_write_hook(w, lambda e: None), vfs.register_path_hook(w, lambda e: None), vfs.write_file(w, "x")),
    }[arg]
    S.attempt(fn)
