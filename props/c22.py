from props import lib

BOUNDS = ("allow-lists of 0-2 arbitrary names (any strings of up to 4 letters over the characters of the command names, compared with all 28 built-in commands, two registered ones and unknown names), "
          "given as list, set, tuple or generator, or none at all; commands called directly, as any stage of a pipeline of 2, on a later line, with the name in a variable, quoted, as part of a path or in capitals, with "
          "assignments and redirections; with and without host fallback (host processes are recorded, not run)")
BUDGET = {"quick": 200, "thorough": 700}
COVERS = ("allowed", "refused")

BUILTINS = ["pwd", "cd", "ls", "cat", "touch", "mkdir", "rm", "cp", "mv", "tree", "write", "append", "echo", "printf", "wc", "grep", "rg", "search", "python", "python3", "host", "bash",
            "sh", "help", "stat", "head", "tail", "find"]
NAMES = BUILTINS + ["mine", "probe", "nosuch"]
SPELL = ["{}", "{} /f", "'{}' /f", "V=1 {} /f", "{} < /f", "{} > /o", "ok | {} /f", "{} /f | ok", "ok\n{} /f", "$X /f", "{}{}", "V=1 $X", "PATH", "ok > /z | {} /f"]


def cases(tier):
    return [(f"{name} {'host' if h else ''}", {"name": name, "host": h}) for name in NAMES for h in (False, True)]


def run(S, name, host):
    vfs = S.sandfs.VirtualFileSystem()
    vfs.write_file("/f", "x\n")
    calls = []
    kind = S.choice("kind", ["none", "empty", "list", "set", "gen"] if S.thorough else ["none", "empty", "set", "gen"])
    entries = []
    if kind in ("list", "set", "gen"):
        n = len(name)
        for i in range(2 if kind == "set" else 1):
            entries.append(S.str("entry%d" % i, max(1, n - 1) if i == 0 else n, n + 1 if i == 0 else n, alphabet=letters(name)))
    given = {"none": None, "empty": [], "list": entries + ["ok"], "set": set(entries + ["ok"]), "gen": (e for e in entries + ["ok"])}[kind]
    started = []

    def process(argv, cwd, data, env):
        started.append(argv)
        return lib.Done(argv, 0, "host output", "")
    S.fs.handler = process
    sh = S.sandfs.SandboxShell(vfs, allowed_commands=given, host_fallback=host, env={"X": name})
    vfs.write_file("/f", "x\n")

    def spy(n, inner):
        def handler(args, ctx):
            calls.append(n)
            return inner(args, ctx) if inner else "ran"
        return handler
    for n in sorted(sh.commands):
        sh.register_command(n, spy(n, sh.commands[n]))
    for n in ("mine", "probe", "ok"):
        sh.register_command(n, spy(n, None))
    spell = S.choice("spell", SPELL)
    if spell == "PATH":            # another command whose name looks like it
        target = S.choice("odd", ["/opt/evil/" + name, "./" + name, "bin/" + name, "/" + name, name + "/", name + "/x", name + ".exe", name.upper(), name.capitalize(), name + " ", " " + name, name + "\t"])
        line = ("'" + target + "' /f") if target != target.strip() else target + " /f"
    elif spell == "{}{}":
        line = name + "x /f"       # a different, unknown command
        target = name + "x"
    else:
        line = spell.format(name)
        target = name
    if kind == "none":
        allowed = {"ok": True, target: True}
    elif kind == "empty":
        allowed = {"ok": False, target: False}
    else:
        allowed = {"ok": True, target: any(e == target for e in entries)}
    before = [(str(p), None if hasattr(x, "children") else x.read(vfs)) for p, x in vfs.walk("/")]
    cwd = vfs.pwd()
    r = sh.exec(line)
    reach = not ("ok" in spell and spell.index("ok") < spell.index("{}") and not allowed["ok"])
    if target in sh.commands:
        if allowed[target] and reach:
            S.cover("allowed")
            S.check(target in calls, "a command on the list runs")
        else:
            S.cover("refused")
            S.check(target not in calls, "a command that is not on the list does not run")
            S.check(r.exit_code != 0 and r.stderr != "", "and that is an error")
    else:
        S.check(target not in calls, "unknown commands run nothing built in")
        if host and allowed[target] and reach:
            S.cover("allowed")
            S.check(any(a[0] == target for a in started), "unknown commands on the list go to the host when that is enabled")
        else:
            S.cover("refused")
            S.check(r.exit_code != 0 and r.stderr != "", "an unknown command is an error")
    S.check("ok" not in calls or allowed["ok"], "no other command runs unless allowed")
    for n in calls:
        S.check(n in ("ok", target), "only the named commands run")
    for a in started:
        S.check(allowed[target] and (host or target in ("host", "bash", "sh")), "host processes are started only by allowed commands")
    if not allowed[target]:
        S.check(not started, "a refused command starts no host process")
        S.check(S.eq([(str(p), None if hasattr(x, "children") else x.read(vfs)) for p, x in vfs.walk("/")],
                     sorted(before + [("/z", "ran")]) if spell.startswith("ok > /z") and allowed["ok"] else before) and vfs.pwd() == cwd,
                "a refused command has no effect")


def letters(name):
    return "".join(sorted(set(name + "x")))
