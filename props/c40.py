from props import lib

BOUNDS = ("a tree of 9 nodes with one node of arbitrary access policy (8 possibilities) and a symbolic text; touch, mkdir, mkdir -p, rm, rm -r and cat with 1-2 (thorough: 3) operands, cp, cp -r, mv with 2, "
          "write, append, redirections, cd, ls, wc, stat, tree, find with 1-2, each operand any of 14 spellings (existing, missing, nested, relative, below a file, the root), with and without an all-seeing view (thorough: two working directories)")
ASSUMPTIONS = ["the layout of headings between the parts of ls, head and tail is not specified"]
BUDGET = {"quick": 240, "thorough": 700}
COVERS = ("all", "stopped")

OPS = ["/f", "a", "/d", "s", "/d/s/c", "/new", "/n/m", "/e", "/f/x", "../f", "/d/../e/./q", "/", "/d/b/", "s/../../e"]
MULTI = ["touch", "mkdir", "mkdir -p", "rm", "rm -r", "rm -rf", "cat"]
SHOW = ["ls", "wc", "wc -l", "find", "head -n 1", "tail -n 1"]
PAIR = ["cp", "cp -r", "mv"]
TEXT = ["write P T", "write P --append T", "append P T", "echo -n T > P", "echo -n T >> P", "cat < P", "cd P", "stat P", "tree P"]


def cases(tier):
    out = [(f"{c} {o}", {"kind": "multi", "cmd": c, "first": i}) for c in MULTI for i, o in enumerate(OPS)]
    out += [(f"{c} {o}", {"kind": "pair", "cmd": c, "first": i}) for c in PAIR for i, o in enumerate(OPS)]
    out += [(f"{c} {o}", {"kind": "show", "cmd": c, "first": i}) for c in SHOW for i, o in enumerate(OPS) if i % 2 == 0 or tier == "thorough"]
    out += [(c, {"kind": "text", "cmd": c, "first": 0}) for c in TEXT]
    return out


class Side:
    def __init__(self, S, who, policy, cwd, text):
        s = S.sandfs
        self.vfs = v = s.VirtualFileSystem()
        for p in ("/f", "/d/a", "/d/b", "/d/s/c"):
            v.write_file(p, text + p)
        v.mkdir("/e")
        self.events = []
        v.register_write_hook("/", lambda e: self.events.append(("w", e.path, e.content, e.version, e.append)))
        v.register_path_hook("/", lambda e: self.events.append(("p", e.path, e.event, e.content)))
        v.cd(cwd)
        v.set_policy(who, s.NodePolicy(readable=policy[0], writable=policy[1], append_only=policy[2]))

    def state(self):
        rows = []
        for path, node in self.vfs.walk("/"):
            d = hasattr(node, "children")
            rows.append((str(path), "d" if d else node.read(self.vfs), node.version, lib.pol(node)))
        return rows, self.events, self.vfs.pwd()


def api(S, vfs, cmd, op):
    if cmd == "touch":
        return vfs.touch(op) and ""
    if cmd == "mkdir":
        return vfs.mkdir(op) and ""
    if cmd == "mkdir -p":
        return vfs.mkdir(op, parents=True, exist_ok=True) and ""
    if cmd == "rm":
        return vfs.remove(op) or ""
    if cmd in ("rm -r", "rm -rf"):
        return vfs.remove(op, recursive=True) or ""
    return vfs.read_file(op)


def run(S, kind, cmd, first):
    who = S.choice("who", ["/f", "/d", "/d/s", "/d/a", "/e"] if kind != "show" else ["/f", "/d/s", "/d/a"])
    policy = (S.bool("r"), S.bool("w"), S.bool("ao"))
    cwd = S.choice("cwd", ["/d", "/"]) if S.thorough or kind == "text" else "/d"
    text = S.str("text", 0, 1, alphabet="x\n")
    one, two = Side(S, who, policy, cwd, text), Side(S, who, policy, cwd, text)
    view = S.sandfs.VisibilityView() if S.thorough and S.flag("view") or first % 3 == 1 else None
    sh = S.sandfs.SandboxShell(one.vfs, view=view)
    if kind == "text":
        return texts(S, cmd, one, two, sh)
    ops = [OPS[first]]
    if kind == "pair":
        ops.append(S.choice("o2", OPS))
    else:
        for k in range(S.pick("more", 3 if S.thorough and kind == "multi" else 2)):
            ops.append(S.choice("o%d" % (k + 2), OPS if S.thorough or kind == "multi" else OPS[::2]))
    if kind == "show":
        return shows(S, cmd, ops, one, sh)
    r = sh.exec(cmd + " " + " ".join(ops))
    out, good = "", True
    if kind == "pair":
        fn, k = (two.vfs.move, {}) if cmd == "mv" else (two.vfs.copy, {"recursive": cmd == "cp -r"})
        good, _ = S.attempt(fn, ops[0], ops[1], **k)
    else:
        for op in ops:
            good, v = S.attempt(api, S, two.vfs, cmd, op)
            if not good:
                break
            out = out + v
    S.cover("all" if good else "stopped")
    S.check((r.exit_code == 0) == good, "the command succeeds exactly when every call does")
    if good:
        S.check(r.stdout == out and r.stderr == "", "and prints what they return")
    else:
        S.check(r.stderr != "", "and otherwise says why")
    S.check(S.eq(one.state(), two.state()), "the command does what the calls do, one operand after the other, up to the first that fails")


def shows(S, cmd, ops, one, sh):
    before = one.state()
    parts = [sh.exec(cmd + " " + o) for o in ops]
    r = sh.exec(cmd + " " + " ".join(ops))
    good = all(p.exit_code == 0 for p in parts)
    S.cover("all" if good else "stopped")
    S.check((r.exit_code == 0) == good, "the command succeeds exactly when it does for every operand")
    S.check(good or r.stderr != "", "and otherwise says why")
    if good:
        if cmd in ("find", "wc", "wc -l"):
            S.check(r.stdout == "\n".join(p.stdout for p in parts), "the output is that for each operand, in order")
        else:
            at = 0
            for o, p in zip(ops, parts):
                if len(ops) > 1:
                    at = r.stdout.find(o, at)
                    S.check(at >= 0, "each part is labelled")
                    at = at + len(o)
                at = r.stdout.find(p.stdout, at)
                S.check(at >= 0, "each part is shown, in order")
                at = at + len(p.stdout)
    S.check(S.eq(one.state(), before), "showing changes nothing")


def texts(S, cmd, one, two, sh):
    op = S.choice("p", OPS)
    t = S.str("t", 1, 1, alphabet="x $\"'\u00e9")
    sh.env["T"] = t
    v = two.vfs
    r = sh.exec(cmd.replace(" T", ' "$T"').replace("P", op))
    if cmd in ("write P T", "echo -n T > P"):
        good, out = S.attempt(v.write_file, op, t)
    elif cmd.startswith(("write", "append", "echo")):
        good, out = S.attempt(v.append_file, op, t)
    elif cmd == "cat < P":
        good, out = S.attempt(v.read_file, op)
    elif cmd == "cd P":
        good, out = S.attempt(v.cd, op)
    elif cmd == "tree P":
        good, out = S.attempt(v.tree, op)
    else:
        good, out = S.attempt(v.get_node, op)
        if good:
            S.check(r.stdout.startswith("  File: " + str(out.path())), "the node is described")
            out = r.stdout
    if not isinstance(out, str) and not hasattr(out, "startswith"):
        out = ""
    S.cover("all" if good else "stopped")
    S.check((r.exit_code == 0) == good, "the command succeeds exactly when the call does")
    if good:
        S.check(r.stdout == out and r.stderr == "", "and prints what it returns")
    else:
        S.check(r.stderr != "", "and otherwise says why")
    S.check(S.eq(one.state(), two.state()), "and has the same effect")
