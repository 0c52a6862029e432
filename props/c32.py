import functools

BOUNDS = ("handlers as functions of one or two parameters, with a defaulted context, with *args, lambdas, bound methods, callable objects and partials, registered under new names, over earlier registrations of another form and over built-in names; "
          "0-2 words of 1 character, input and variable values of up to 1 character, any working directory of three, with and without a view; results given as text, nothing, ten other objects (empty and zero ones included) or a full result (also of a derived class) with symbolic texts and codes; errors of each kind; "
          "lists of commands with names of 1 character")
ASSUMPTIONS = ["handlers whose second parameter is keyword-only are not specified"]
BUDGET = {"quick": 200, "thorough": 700}
COVERS = ("ctx", "plain", "failed", "listed")

FORMS = ["one", "two", "default", "star", "lambda1", "lambda2", "method1", "method2", "object1", "object2", "partial1", "partial2"]
RESULTS = ["text", "none", "full", "object", "sandbox", "other", "derived", "special"]


def cases(tier):
    out = [(f"{f} {r}", {"kind": "call", "form": f, "res": r}) for f in FORMS for r in RESULTS]
    out += [(f"again {f}", {"kind": "again", "form": f, "res": ""}) for f in ("one", "two", "star", "method1", "object2")]
    out += [("list", {"kind": "list", "form": "", "res": ""}), ("views", {"kind": "views", "form": "", "res": ""})]
    return out


def handler(form, do):
    """A handler of the given form calling do(args, ctx or None)."""
    if form == "one":
        def h(args):
            return do(args, None)
        return h
    if form == "two":
        def h(words, context):
            return do(words, context)
        return h
    if form == "default":
        def h(args, ctx=None):
            return do(args, ctx)
        return h
    if form == "star":
        def h(*a):
            return do(*a) if len(a) == 2 else do(a[0], None)
        return h
    if form == "lambda1":
        return lambda args: do(args, None)
    if form == "lambda2":
        return lambda args, ctx: do(args, ctx)

    class One:
        def run(self, args):
            return do(args, None)

        def __call__(self, args):
            return do(args, None)

    class Two:
        def run(self, args, ctx):
            return do(args, ctx)

        def __call__(self, args, ctx):
            return do(args, ctx)
    if form == "method1":
        return One().run
    if form == "method2":
        return Two().run
    if form == "object1":
        return One()
    if form == "object2":
        return Two()
    if form == "partial1":
        return functools.partial(lambda extra, args: do(args, None), "x")
    return functools.partial(lambda extra, args, ctx: do(args, ctx), "x")


def takes_ctx(form):
    return form in ("two", "default", "star", "lambda2", "method2", "object2", "partial2")


def word(S, name):
    w = S.str(name, 1, 1)
    S.assume(S.neg(S.any([w == x for x in "*?[]"])))
    return w


def run(S, kind, form, res):
    vfs = S.sandfs.VirtualFileSystem()
    if kind == "list":
        return listing(S, vfs)
    if kind == "views":
        return views(S, vfs)
    vfs.mkdir("/d/e", parents=True)
    lo = 0 if S.thorough else 1
    value = S.str("value", lo, 1)
    seen = S.sandfs.VisibilityView(classifications={"public"})
    view = S.choice("view", [None, seen]) if S.thorough or res == "text" else seen
    sh = S.sandfs.SandboxShell(vfs, env={"E": value}, view=view)
    other = S.sandfs.SandboxShell(vfs)
    calls = []
    out = S.str("out", lo, 1)
    err = S.str("err", lo, 1)
    code = S.int("code", 0, 3)
    CR = S.sandfs.CommandResult

    class Derived(CR):
        def __str__(self):
            return "described"

        def __bool__(self):
            return False

    class Special(Exception):
        def __str__(self):
            return "m" + err
    thing = S.choice("thing", [17, 0, False, True, 0.0, [], {}, (), ["a"], -1]) if res == "object" else None

    def do(args, ctx):
        calls.append((list(args), None if ctx is None else (ctx.stdin, sorted(ctx.env.items()), ctx.cwd, ctx.vfs, ctx.view)))
        if res == "text":
            return out
        if res == "none" or res == "":
            return None
        if res == "full":
            return CR(stdout=out, stderr=err, exit_code=code)
        if res == "derived":
            return Derived(stdout=out, stderr=err, exit_code=code)
        if res == "special":
            raise Special()
        if res == "object":
            return thing
        if res == "sandbox":
            raise S.exc.NodeNotFound("m" + err)
        raise ValueError("m" + err)
    name = S.choice("name", ["cmd", "ls"])
    if kind == "again":
        first = S.choice("first", ["one", "two", "star"])
        sh.register_command(name, handler(first, lambda a, c: calls.append("stale")))
    sh.register_command(name, handler(form, do))
    cwd = S.choice("cwd", ["/", "/d", "/d/e"] if S.thorough or res == "none" else ["/d"])
    vfs.cd(cwd)
    stdin = S.str("stdin", lo, 1)
    sh.register_command("src", lambda args: stdin)
    words = [word(S, "w%d" % k) for k in range(S.pick("n", 3))]
    for k, w in enumerate(words):
        sh.env["W%d" % k] = w
    env = sorted(list({"E": value, "P": "pre"}.items()) + [("W%d" % k, w) for k, w in enumerate(words)])
    r = sh.exec("src | P=pre " + name + "".join(" \"$W%d\"" % k for k in range(len(words))))
    S.check(len(calls) == 1 and calls[0] != "stale", "the command registered last is called once")
    S.check(calls[0][0] == words, "with exactly its words")
    ctx = calls[0][1]
    S.check((ctx is not None) == takes_ctx(form), "and a context exactly when it can take one")
    if ctx is not None:
        S.check(S.eq(ctx[0], stdin) and S.eq([list(x) for x in ctx[1]], [list(x) for x in env]) and ctx[2] == cwd and ctx[3] is vfs, "the context describes the call")
        S.check((ctx[4] is view) if view is not None else ctx[4] is sh.view, "and the shell's view")
        S.cover("ctx")
    else:
        S.cover("plain")
    want = {"text": (out, "", 0), "none": ("", "", 0), "": ("", "", 0), "full": (out, err, code), "derived": (out, err, code), "object": (str(thing), "", 0)}.get(res)
    if want is None:
        S.check(r.exit_code == 1 and r.stdout == "" and ("m" + err) in r.stderr, "a raised error is reported")
        S.cover("failed")
    else:
        S.check(S.eq(r.stdout, want[0]) and S.eq(r.stderr, want[1]) and S.eq(r.exit_code, want[2]), "the result is passed on unchanged")
    S.check("P" not in sh.env, "the call's assignment does not persist")
    if name == "cmd":
        S.check(other.exec("cmd").exit_code != 0 and len(calls) == 1, "other shells do not know the command")


def listing(S, vfs):
    sh = S.sandfs.SandboxShell(vfs)
    plain = S.sandfs.SandboxShell(vfs)
    base = plain.available_commands()
    S.check(base == sorted(set(base)), "commands are listed once, sorted")
    for c in ("ls", "cat", "rg", "host", "help"):
        S.check(c in base, "built-in commands are listed")
    a = S.str("a", 1, 1, alphabet="Zaz~")
    b = S.str("b", 1, 1, alphabet="Zaz~")
    doc = S.str("doc", 0, 2, alphabet="xy ")
    sh.register_command(a, lambda args: "", description=doc)
    sh.register_command(b, lambda args: "")
    want = sorted(base + [a] + ([] if a == b else [b]))
    S.check(S.eq(sh.available_commands(), want), "registered commands are listed once, sorted")
    text = sh.exec("help").stdout.split("\n")
    rows = [t.split() for t in text]
    at = [next((i for i, row in enumerate(rows) if row and S.eq(row[0], n)), -1) for n in want]
    S.check(all(i >= 0 for i in at) and at == sorted(at) and len(set(at)) == len(at), "help lists every command in order")
    S.check(S.all([t == plain_t for t, plain_t in zip(plain.exec("help").stdout.split("\n"), plain.exec("help").stdout.split("\n"))]), "help is stable")
    line = text[at[want.index(a)]]
    S.check(doc in line, "with its description")
    S.check(S.eq(plain.available_commands(), base), "other shells are unaffected")
    S.cover("listed")


def views(S, vfs):
    """A command sees the filesystem it is told about, whatever the shell's options."""
    vfs.write_file("/f", S.str("t", 0, 1))
    sh = S.sandfs.SandboxShell(vfs, allowed_commands=["see"])
    sh.register_command("see", lambda args, ctx: ctx.vfs.read_file(args[0]))
    r = sh.exec("see /f")
    S.check(r.exit_code == 0 and r.stdout == vfs.read_file("/f"), "the command's text is the output")
    S.check(sh.exec("cat /f").exit_code != 0, "other commands stay forbidden")
    S.cover("plain")
