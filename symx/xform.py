"""AST instrumentation: route the operations CPython would perform in C on
str/dict/set through the hooks of rt.py, leaving everything else untouched."""

from __future__ import annotations

import ast

_KEEP = {"super", "locals", "globals", "eval", "exec", "vars", "dir", "compile", "__import__", "breakpoint", "input"}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


class Xform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.class_depth = 0

    # -- structure -----------------------------------------------------------
    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.class_depth += 1
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [self.visit(k) for k in node.keywords]
        node.body = self._body(node.body)
        self.class_depth -= 1
        self.stack.pop()
        return node

    def _body(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def _func(self, node):
        self.stack.append(node.name)
        qual = ".".join(self.stack)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [None if d is None else self.visit(d) for d in a.kw_defaults]
        body = self._body(node.body)
        i = 0
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            i = 1
        enter = ast.Expr(ast.Call(func=_name("_sx_enter"), args=[ast.Constant(f"{self.mod}:{qual}")], keywords=[]))
        body.insert(i, enter)
        node.body = body
        self.stack.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_Lambda(self, node):
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [None if d is None else self.visit(d) for d in a.kw_defaults]
        node.body = self.visit(node.body)
        return node

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    # -- expressions -----------------------------------------------------------
    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in ("exec", "compile") and not self.snippet:
            f.id = "_sx_" + f.id
        if isinstance(f, ast.Name) and (f.id in _KEEP or f.id in ("_sx_exec", "_sx_compile")):
            node.args = [self.visit(x) for x in node.args]
            node.keywords = [self.visit(k) for k in node.keywords]
            return node
        args = [self.visit(x) for x in node.args]
        kws = [self.visit(k) for k in node.keywords]
        if isinstance(f, ast.Attribute) and not (f.attr.startswith("__") and not f.attr.endswith("__")):
            return ast.copy_location(ast.Call(func=_name("_sx_callm"),
                                              args=[self.visit(f.value), ast.Constant(f.attr)] + args, keywords=kws), node)
        return ast.copy_location(ast.Call(func=_name("_sx_call"), args=[self.visit(f)] + args, keywords=kws), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            if isinstance(op, ast.In):
                return ast.copy_location(ast.Call(func=_name("_sx_in"), args=[node.left, node.comparators[0]], keywords=[]), node)
            if isinstance(op, ast.NotIn):
                return ast.copy_location(ast.Call(func=_name("_sx_notin"), args=[node.left, node.comparators[0]], keywords=[]), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(func=_name("_sx_mod"), args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                spec = ast.Constant("") if spec is None else self.visit(spec)
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(ast.Call(func=_name("_sx_fstr"), args=parts, keywords=[]), node)

    def visit_Dict(self, node):
        items = []
        for k, v in zip(node.keys, node.values):
            v = self.visit(v)
            if k is None:
                items.append(ast.Call(func=_name("_sx_Star"), args=[v], keywords=[]))
            else:
                items.append(ast.Tuple(elts=[self.visit(k), v], ctx=ast.Load()))
        return ast.copy_location(ast.Call(func=_name("_sx_mkdict"), args=items, keywords=[]), node)

    def visit_Set(self, node):
        elts = [self.visit(e) for e in node.elts]
        return ast.copy_location(ast.Call(func=_name("_sx_mkset"), args=[ast.List(elts=elts, ctx=ast.Load())], keywords=[]), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        g = ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return ast.copy_location(ast.Call(func=_name("_sx_mkdict_pairs"), args=[g], keywords=[]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        g = ast.GeneratorExp(elt=node.elt, generators=node.generators)
        return ast.copy_location(ast.Call(func=_name("_sx_mkset"), args=[g], keywords=[]), node)


def _strip_pattern_calls(tree):
    return tree


def transform(source, modname, filename, snippet=False):
    tree = ast.parse(source, filename)
    x = Xform(modname)
    x.snippet = snippet
    tree = x.visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)
