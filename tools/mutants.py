#!/usr/bin/env python3-vt
"""Mutation survey: python3-vt tools/mutants.py N [SEED] [FILE...] [--jobs n] [--screen DIR]

Makes N random small changes (one per scratch copy of /repo) that the repository's tests do not notice, runs the
checks on each until one reports a violation, and lists the survivors, for a human to judge (with --screen: the stored path models of tools/corpus.py instead of the checks): equivalent,
unspecified, or a gap in the checks."""
import ast, copy, json, os, random, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["vfs", "shell", "shell_parser", "nodes", "adapters", "search", "policies", "pyexec", "cli", "providers", "integrations"]


class Mut(ast.NodeTransformer):
    """Counts mutation points, and performs the one numbered n."""

    def __init__(self, n=-1):
        self.n, self.i, self.what = n, -1, None
        self.fn = []

    def hit(self, node, what):
        self.i += 1
        if self.i == self.n:
            self.what = "%s:%s %s" % (".".join(self.fn), getattr(node, "lineno", "?"), what)
            return True
        return False

    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        node.body = self.block(node.body)
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [d and self.visit(d) for d in node.args.kw_defaults]
        self.fn.pop()
        return node

    def visit_ClassDef(self, node):
        self.fn.append(node.name)
        node.body = [self.visit(x) for x in node.body]
        self.fn.pop()
        return node

    def block(self, body):
        out = []
        for st in body:
            droppable = isinstance(st, (ast.Expr, ast.Raise, ast.Continue, ast.Break, ast.AugAssign)) and not (isinstance(st, ast.Expr) and isinstance(st.value, (ast.Constant, ast.Yield, ast.YieldFrom))) \
                or isinstance(st, ast.Assign) and isinstance(st.targets[0], (ast.Attribute, ast.Subscript)) or isinstance(st, ast.Delete) \
                or isinstance(st, ast.If) and not st.orelse and all(isinstance(x, (ast.Raise, ast.Return, ast.Continue, ast.Break)) for x in st.body)
            if droppable and self.hit(st, "drop " + ast.unparse(st).split("\n")[0][:90]):
                out.append(ast.copy_location(ast.Pass(), st))
                continue
            out.append(self.visit(st))
        return out or [ast.Pass()]

    def generic_visit(self, node):
        for name in ("body", "orelse", "finalbody"):
            v = getattr(node, name, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(node, name, self.block(v))
        for field, v in ast.iter_fields(node):
            if field in ("body", "orelse", "finalbody") and isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                continue
            if field in ("annotation", "returns"):
                continue
            if isinstance(v, ast.AST):
                setattr(node, field, self.visit(v))
            elif isinstance(v, list):
                setattr(node, field, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
        return node

    def visit_If(self, node):
        if self.hit(node, "negate if " + ast.unparse(node.test)[:90]):
            node.test = ast.UnaryOp(ast.Not(), node.test)
            return node
        return self.generic_visit(node)

    def visit_IfExp(self, node):
        if self.hit(node, "always first: " + ast.unparse(node)[:90]):
            return node.body
        if self.hit(node, "always second: " + ast.unparse(node)[:90]):
            return node.orelse
        return self.generic_visit(node)

    def visit_BoolOp(self, node):
        for k in range(len(node.values)):
            if self.hit(node, "without part %d of %s" % (k, ast.unparse(node)[:90])):
                vals = node.values[:k] + node.values[k + 1:]
                return vals[0] if len(vals) == 1 else ast.BoolOp(node.op, vals)
        return self.generic_visit(node)

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            alt = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
            for a in alt.get(type(node.ops[0]), []):
                if self.hit(node, "%s for %s" % (a.__name__, ast.unparse(node)[:90])):
                    node.ops = [a()]
                    return node
        return self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, ast.Not) and self.hit(node, "without not: " + ast.unparse(node)[:90]):
            return node.operand
        return self.generic_visit(node)

    def visit_Constant(self, node):
        if isinstance(node.value, bool):
            if self.hit(node, "not %r" % node.value):
                return ast.copy_location(ast.Constant(not node.value), node)
        elif isinstance(node.value, int):
            if self.hit(node, "%r + 1" % node.value):
                return ast.copy_location(ast.Constant(node.value + 1), node)
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_Call(self, node):
        f = ast.unparse(node.func)
        if f in ("set", "dict", "list", "sorted", "frozenset", "reversed", "bool", "str") and len(node.args) == 1 and not node.keywords:
            if self.hit(node, "without %s(): %s" % (f, ast.unparse(node)[:90])):
                return self.visit(node.args[0])
        for k, kw in enumerate(node.keywords):
            if self.hit(node, "without keyword %s: %s" % (kw.arg, ast.unparse(node)[:90])):
                node.keywords = node.keywords[:k] + node.keywords[k + 1:]
                return node
        if isinstance(node.func, ast.Attribute) and node.func.attr in ("strip", "lower", "copy", "rstrip", "lstrip", "resolve", "absolute") and not node.args:
            if self.hit(node, "without .%s(): %s" % (node.func.attr, ast.unparse(node)[:90])):
                return self.visit(node.func.value)
        if isinstance(node.func, ast.Attribute) and node.func.attr in ("startswith", "endswith", "is_relative_to"):
            if self.hit(node, "equality instead: " + ast.unparse(node)[:90]):
                return ast.Compare(node.func.value, [ast.Eq()], node.args[:1])
        return self.generic_visit(node)

    def visit_BinOp(self, node):
        if isinstance(node.op, ast.Add) and not isinstance(node.left, ast.Constant):
            if self.hit(node, "only the left of " + ast.unparse(node)[:90]):
                return self.visit(node.left)
        if isinstance(node.op, ast.Sub) and self.hit(node, "plus for " + ast.unparse(node)[:90]):
            node.op = ast.Add()
            return node
        return self.generic_visit(node)


def points(src):
    m = Mut()
    m.visit(ast.parse(src))
    return m.i + 1


def main():
    args = sys.argv[1:]
    jobs = "4"
    if "--jobs" in args:
        k = args.index("--jobs")
        jobs = args[k + 1]
        del args[k:k + 2]
    skip = 0
    if "--skip" in args:
        k = args.index("--skip")
        skip = int(args[k + 1])
        del args[k:k + 2]
    screen = None
    if "--screen" in args:
        k = args.index("--screen")
        screen = args[k + 1]
        del args[k:k + 2]
    count, seed = int(args[0]), int(args[1]) if len(args) > 1 else 1
    files = args[2:] or FILES
    costs = {}
    man = [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
    sys.path.insert(0, HERE)
    from tools.table import P
    rel = {p["id"]: p["files"] for p in P}
    all_points = []
    for f in files:
        src = open("/repo/sandfs/%s.py" % f).read()
        all_points += [(f, k) for k in range(points(src))]
    random.Random(seed).shuffle(all_points)
    work = "/tmp/mut/work-%d" % os.getpid()
    kept = 0
    order = {}
    for f, k in all_points[skip:]:
        if kept >= count:
            break
        src = open("/repo/sandfs/%s.py" % f).read()
        m = Mut(k)
        tree = ast.fix_missing_locations(m.visit(ast.parse(src)))
        shutil.rmtree(work, ignore_errors=True)
        shutil.copytree("/repo", work, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".venv", ".git"))
        open(os.path.join(work, "sandfs", f + ".py"), "w").write(ast.unparse(tree) + "\n")
        try:
            r = subprocess.run(["timeout", "60", "/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], cwd=work, capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        except Exception:
            continue
        if r.returncode != 0:
            continue
        kept += 1
        t0 = time.time()
        todo = sorted(man, key=lambda p: (("sandfs/%s.py" % f) not in rel[p], -order.get((f, m.what.split(":")[0], p), 0) - order.get((f, p), 0) * .2, costs.get(p, 10)))
        found = None
        if screen:
            try:
                r = subprocess.run(["python3-vt", os.path.join(HERE, "tools", "corpus.py"), "screen", screen], cwd=HERE, capture_output=True, text=True, env=dict(os.environ, SANDFS_REPO=work, JOBS=jobs), timeout=300)
                found = r.stdout.strip()[:150] if r.returncode == 1 else None if r.returncode == 0 else "rc %d %s" % (r.returncode, r.stderr[-200:])
            except subprocess.TimeoutExpired:
                found = "timeout"
            todo = []
        for p in todo:
            t1 = time.time()
            try:
                r = subprocess.run(["python3-vt", "check.py", p, "--jobs", jobs], cwd=HERE, capture_output=True, text=True, env=dict(os.environ, SANDFS_REPO=work), timeout=900)
            except subprocess.TimeoutExpired:
                print("   timeout", p)
                continue
            costs[p] = time.time() - t1
            if r.returncode == 1:
                found = p
                break
            if r.returncode != 0:
                print("   rc", r.returncode, p, r.stderr[-300:])
        if found and not screen:
            order[(f, m.what.split(":")[0], found)] = order.get((f, m.what.split(":")[0], found), 0) + 1
            order[(f, found)] = order.get((f, found), 0) + 1
        print("%s %s.py %s   [%s, %d s]" % ("caught" if found else "SURVIVED", f, m.what, found or "", time.time() - t0), flush=True)
    shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main()
