BOUNDS = ("two consecutive snippets out of 30 — assigning, deleting, shadowing, defining, mutating builtins, reading and writing the filesystem, printing, failing — through one executor, two executors or the python and python3 commands, with values of up to 2 arbitrary characters given as extra globals, template globals, builtins or file texts")
ASSUMPTIONS = ["mutable objects the caller itself puts in the globals are shared on purpose", "what a snippet can reach by introspecting objects is not covered"]
BUDGET = {"quick": 200, "thorough": 700}
COVERS = ("ran", "failed", "shell", "clean")

SNIPPETS = {
    "assign": "x = 1", "delete": "del fs", "shadow": "len = None\nprint = None\nfs = 5", "def": "def x():\n    return 1\nx()", "builtins": "__builtins__['x'] = 1", "drop": "del __builtins__['len']",
    "clear": "__builtins__.clear()", "class x": "x = [c for c in 'ab']", "read": "print(fs.read_file('/f'))", "write": "fs.write_file('/n', v)", "append": "vfs.append_file('/f', v)", "print": "print(v)",
    "two": "print(v, end='')\nprint(v)", "sep": "print(v, 1, sep='-')", "fail": "print(v)\nx = 1\n1 / 0", "name": "print(unknown)", "syntax": "x ==== 1", "raise": "x = 1\nfs.read_file('/missing')", "global": "global x\nx = 1",
    "loop": "for x in range(3):\n    print(x)", "builtin": "print(extra(v))", "template": "print(given)", "vars": "fs.x = 1\nx = 2", "exit": "raise x",
    "tab": "print('a\tb \u00e9 ' + v)", "indent": "if 1:\n\tprint('\t|')\n\tx = 3  \n", "under": "_x = 1\n__y = 2\n_ = 3", "many": "x = a = b = 1\ndel a\nB = None\nempty = ''", "unset": "x = None", "lines": "print(\'\'\'a\n\tb  \n\nc\'\'\')",
}


def cases(tier):
    return [(k, {"first": k}) for k in SNIPPETS]


def run(S, first):
    v = S.str("v", 0, 2)
    S.assume(S.neg(S.any([c == x for c in v for x in "\ud800\udfff"])))
    vfs = S.sandfs.VirtualFileSystem()
    vfs.write_file("/f", v)
    given = S.str("g", 1, 1)
    builtins = {"extra": lambda x: "<" + x + ">"}
    template = {"given": given}
    how = S.choice("how", ["same", "other", "shell"])
    make = lambda: S.sandfs.PythonExecutor(vfs, builtins=builtins, globals_template=template)
    ex = make()
    second = S.choice("second", sorted(SNIPPETS))
    sh = S.sandfs.SandboxShell(vfs, python_executor=ex)
    extra = {"v": v}
    for i, name in enumerate([first, second]):
        if how == "shell" and i == 0 and "\n" not in SNIPPETS[name] and "v" not in SNIPPETS[name].replace("vfs", ""):
            r = sh.exec(["python -c", "python3"][S.pick("cmd", 2)] + " \"" + SNIPPETS[name] + "\"")
            out, x, _ = expect(name, v, given, vfs.read_file("/f"))
            S.check((r.exit_code == 0) == (out is not None), "the command succeeds exactly when the snippet does")
            if out is not None:
                S.check(r.stdout == out and r.stderr == "", "printing what it prints")
            else:
                S.check(r.stderr != "", "failures have a message")
            S.cover("shell")
            continue
        judge(S, vfs, make() if how == "other" and i else ex, name, v, given, extra)
        S.check(list(extra) == ["v"] and list(template) == ["given"] and list(builtins) == ["extra"], "the caller's dictionaries are left alone")
    if first in ("assign", "print", "fail"):
        own = {"__builtins__": {"x": 1, "len": 5}}
        r = ex.run("print(len('ab'))", extra_globals=own)
        S.check(r.stdout == "2\n" and fails(S, ex, "open") and fails(S, ex, "x") and own == {"__builtins__": {"x": 1, "len": 5}}, "the functions available are always the executor's")
        try:
            ex.run("x", extra_globals=own)
            S.check(False, "the functions available are always the executor's")
        except NameError:
            pass
    for e in (ex, make()):
        r = e.run("print(len('ab'), [n for n in ['a'] if n], str(1), given, fs is vfs)")
        S.check(r.stdout == "2 ['a'] 1 " + given + " True\n", "later snippets find everything in place")
        ok = fails(S, e, "x")
        S.check(ok, "and nothing left behind")
    S.cover("clean")


def fails(S, e, code):
    try:
        e.run(code)
    except NameError:
        return True
    return False


def expect(name, v, given, text):
    """(printed text, or None for failures; what x becomes; what is written)"""
    return {
        "assign": ("", 1, None), "delete": ("", "-", None), "shadow": ("", "-", None), "def": ("", "any", None), "builtins": ("", "-", None), "drop": ("", "-", None), "clear": ("", "-", None), "class x": ("", ["a", "b"], None),
        "read": (text + "\n", "-", None), "write": ("", "-", ("/n", v)), "append": ("", "-", ("/f", text + v)), "print": (v + "\n", "-", None), "two": (v + v + "\n", "-", None),
        "sep": (v + "-1\n", "-", None), "fail": (None, None, None), "name": (None, None, None), "syntax": (None, None, None), "raise": (None, None, None), "global": ("", 1, None), "loop": ("0\n1\n2\n", 2, None),
        "builtin": ("<" + v + ">\n", "-", None), "template": (given + "\n", "-", None), "vars": ("", 2, None), "tab": ("a\tb \u00e9 " + v + "\n", "-", None), "indent": ("\t|\n", 3, None), "lines": ("a\n\tb  \n\nc\n", "-", None), "exit": (None, None, None),
        "under": ("", "-", None), "many": ("", 1, None), "unset": ("", None, None),
    }[name]


def judge(S, vfs, ex, name, v, given, extra):
    text = vfs.read_file("/f")
    out, x, wrote = expect(name, v, given, text)
    with S.console([], EOFError) as con:
        try:
            r = ex.run(SNIPPETS[name], extra_globals=extra)
        except (ZeroDivisionError, NameError, SyntaxError, S.SandboxError):
            S.check(out is None, "a good snippet runs")
            r = None
        print("after", end="")
    S.check(con.out == "after" and con.err == "", "nothing a snippet prints reaches the console, and the console works again afterwards")
    if r is None:
        S.cover("failed")
        return
    S.check(out is not None, "a bad snippet is reported")
    S.check(r.stdout == out, "exactly what it prints is returned")
    if x == "-":
        S.check("x" not in r.globals, "with the names it set")
    elif x != "any":
        S.check(r.globals["x"] == x, "and their values")
    S.check("__builtins__" not in r.globals, "without the interpreter's own")
    new = {"under": ["_x", "__y", "_"], "many": ["b", "B", "empty"], "shadow": ["len", "print"]}.get(name, [])
    S.check(sorted(r.globals) == sorted((["fs"] if name != "delete" else []) + ["given", "v", "vfs"] + ([] if x == "-" else ["x"]) + new), "exactly the names given and set are reported")
    if wrote is not None:
        S.check(vfs.read_file(wrote[0]) == wrote[1], "what it writes is in the filesystem")
    S.cover("ran")
