#!/usr/bin/env python3-vt
"""Mechanical behaviour-preserving rewrites of every function of sandfs, on which every check must stay quiet.
python3-vt tools/rewrite.py MODE OUT [REPO]   writes a rewritten copy of the repository to OUT (MODE: flip, loops, temps, strings, helpers, all)."""
import ast, os, shutil, sys


class Names:
    n = 0

    @classmethod
    def new(cls, base):
        cls.n += 1
        return f"_{base}{cls.n}"


def name(n, store=False):
    return ast.Name(n, ast.Store() if store else ast.Load())


def call(f, *a):
    return ast.Call(f if isinstance(f, ast.AST) else name(f), list(a), [])


class Flip(ast.NodeTransformer):
    """if c: A else: B  ->  if not c: B else: A;  a <= b -> not a > b is left alone (NaN); x if c else y -> y if not c else x; and/or -> nested"""

    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse and not (len(node.orelse) == 1 and isinstance(node.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        return ast.IfExp(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op, c = node.ops[0], node.comparators[0]
            if isinstance(op, (ast.In, ast.NotIn)) and isinstance(c, ast.Tuple) and isinstance(node.left, ast.Name):
                parts = [ast.Compare(node.left, [ast.Eq() if isinstance(op, ast.In) else ast.NotEq()], [x]) for x in c.elts]
                return ast.BoolOp(ast.Or() if isinstance(op, ast.In) else ast.And(), parts) if len(parts) > 1 else parts[0]
            if isinstance(op, ast.NotEq):
                return ast.UnaryOp(ast.Not(), ast.Compare(node.left, [ast.Eq()], [c]))
            if isinstance(op, ast.IsNot):
                return ast.UnaryOp(ast.Not(), ast.Compare(node.left, [ast.Is()], [c]))
        return node


def has(node, *types):
    for n in ast.walk(node):
        if isinstance(n, types):
            return True
    return False


class Loops(ast.NodeTransformer):
    """for x in xs: body -> an explicit iterator in a while loop; list comprehensions -> loops are left to generators"""

    def visit_For(self, node):
        self.generic_visit(node)
        if node.orelse:
            return node
        it, end = Names.new("it"), Names.new("end")
        fetch = Names.new("item")
        return [ast.Assign([name(it, True)], call("iter", node.iter)),
                ast.Assign([name(end, True)], call("object")),
                ast.While(ast.Constant(True), [
                    ast.Assign([name(fetch, True)], call("next", name(it), name(end))),
                    ast.If(ast.Compare(name(fetch), [ast.Is()], [name(end)]), [ast.Break()], []),
                    ast.Assign([node.target], name(fetch)),
                    *node.body], [])]

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Name):
            return ast.Assign([ast.Name(node.target.id, ast.Store())], ast.BinOp(ast.Name(node.target.id, ast.Load()), node.op, node.value))
        return node

    def visit_ListComp(self, node):
        self.generic_visit(node)
        return call("list", ast.GeneratorExp(node.elt, node.generators))


class Temps(ast.NodeTransformer):
    """return e -> t = e; return t;  if e: -> t = e; if t:;  nested call arguments kept in place"""

    def visit_Return(self, node):
        self.generic_visit(node)
        if node.value is None or isinstance(node.value, (ast.Constant, ast.Name)):
            return node
        t = Names.new("value")
        return [ast.Assign([name(t, True)], node.value), ast.Return(name(t))]

    def visit_If(self, node):
        elif_ = len(node.orelse) == 1 and isinstance(node.orelse[0], ast.If)
        self.generic_visit(node)
        if has(node.test, ast.NamedExpr):
            return node
        t = Names.new("cond")
        # bool() keeps type checkers' narrowing out of the picture; the value is only tested
        return [ast.Assign([name(t, True)], node.test), ast.If(name(t), node.body, node.orelse)]

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.And) and len(node.values) > 2:
            out = node.values[-1]
            for v in reversed(node.values[:-1]):
                out = ast.BoolOp(ast.And(), [v, out])
            return out
        return node


class Strings(ast.NodeTransformer):
    """f-strings -> str.format / concatenation; "".join(x) kept; s.startswith((..)) kept"""

    def visit_JoinedStr(self, node):
        parts, args = [], []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value.replace("{", "{{").replace("}", "}}"))
            else:
                spec = ""
                if v.format_spec is not None:
                    if any(not isinstance(x, ast.Constant) for x in v.format_spec.values):
                        return node
                    spec = ":" + "".join(x.value for x in v.format_spec.values)
                conv = "" if v.conversion == -1 else "!" + chr(v.conversion)
                parts.append("{%d%s%s}" % (len(args), conv, spec))
                args.append(self.visit(v.value))
        return ast.Call(ast.Attribute(ast.Constant("".join(parts)), "format", ast.Load()), args, [])

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], ast.Eq) and isinstance(node.comparators[0], ast.Constant) and not isinstance(node.left, ast.Constant):
            return ast.Compare(node.comparators[0], node.ops, [node.left])
        return node


class Helpers(ast.NodeTransformer):
    """every method body moves to a private helper: def m(self, ...): return self._m_body(...)"""

    def visit_ClassDef(self, node):
        out = []
        for f in node.body:
            if (isinstance(f, ast.FunctionDef) and not f.decorator_list and not f.name.startswith("__") and f.args.args and f.args.args[0].arg == "self"
                    and not f.args.vararg and not f.args.kwarg and not has(f, ast.Yield, ast.YieldFrom, ast.Nonlocal) and "super" not in ast.dump(f)
                    and not any(isinstance(b, ast.ClassDef) and b.name == "Protocol" for b in node.bases)
                    and not any("Protocol" in ast.dump(b) for b in node.bases)):
                inner = "_do_" + f.name.lstrip("_")
                a = f.args
                plain = ast.arguments([], [ast.arg(x.arg) for x in a.args], None, [ast.arg(x.arg) for x in a.kwonlyargs], [None] * len(a.kwonlyargs), None, [])
                doc = f.body[:1] if ast.get_docstring(f) else []
                body = f.body[1:] if doc else f.body
                helper = ast.FunctionDef(inner, plain, body or [ast.Pass()], [], f.returns, None)
                helper.type_params = []
                f.body = doc + [ast.Return(ast.Call(ast.Attribute(name("self"), inner, ast.Load()), [name(x.arg) for x in a.args[1:]],
                                                   [ast.keyword(x.arg, name(x.arg)) for x in a.kwonlyargs]))]
                out += [f, helper]
            else:
                out.append(f)
        node.body = out
        return node


MODES = {"flip": [Flip], "loops": [Loops], "temps": [Temps], "strings": [Strings], "helpers": [Helpers], "all": [Strings, Flip, Loops, Temps, Helpers]}


def rewrite(mode, out, repo="/repo"):
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(repo, out, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".venv"))
    base = os.path.join(out, "sandfs")
    for root, _, files in os.walk(base):
        for f in files:
            if f.endswith(".py"):
                p = os.path.join(root, f)
                tree = ast.parse(open(p).read())
                for t in MODES[mode]:
                    tree = ast.fix_missing_locations(t().visit(tree))
                open(p, "w").write(ast.unparse(tree) + "\n")


if __name__ == "__main__":
    rewrite(sys.argv[1], sys.argv[2], *sys.argv[3:4])
