"""Shared by the harnesses: building trees, observing them, a reference tree."""


def pol(node):
    p = node.policy
    return (p.readable, p.writable, p.append_only, p.classification, sorted(p.principals))


def facts(vfs, node, times=False):
    """Everything observable about one node."""
    is_dir = hasattr(node, "children")
    row = ["d" if is_dir else "f", "" if is_dir else node.read(vfs), node.version, pol(node),
           sorted(node.metadata.items())]
    if times:
        row.append(node.modified_at)
    return row


def dump(vfs, skip=(), times=False):
    """{path: facts} for the whole tree."""
    out = {}
    for path, node in vfs.walk("/"):
        p = str(path)
        if any(p == s or p.startswith(s + "/") for s in skip):
            continue
        out[p] = facts(vfs, node, times)
    return out


def same(S, a, b, except_for=()):
    """Two dumps are equal outside the named paths."""
    ka = sorted(k for k in a if k not in except_for)
    kb = sorted(k for k in b if k not in except_for)
    if ka != kb:
        return False
    return S.all([S.eq(a[k], b[k]) for k in ka])


def diff(a, b):
    ks = sorted(set(a) | set(b))
    return [k for k in ks if k not in a or k not in b or a[k] != b[k]]


def under(path, root):
    return path == root or path.startswith(root if root == "/" else root + "/")


def subtree(d, root):
    """Rows of a dump below root, keyed by relative path."""
    return {k[len(root):]: v for k, v in d.items() if under(k, root)}


def tree_ok(S, vfs):
    """Structural invariant: every node is reachable at exactly the path it reports."""
    seen = []

    def rec(d, path):
        for name, child in d.children.items():
            p = ("" if path == "/" else path) + "/" + name
            S.check(child.name == name, "a node is filed under its own name")
            S.check(child.parent is d, "a node's parent is the directory holding it")
            S.check(str(child.path()) == p, "a node reports the path it is reachable at")
            S.check(all(child is not s for s in seen), "a node appears once in the tree")
            seen.append(child)
            if hasattr(child, "children"):
                rec(child, p)
    rec(vfs.root, "/")


def parent_of(p):
    i = p.rfind("/")
    return p[:i] if i > 0 else "/"


def base_of(p):
    return p[p.rfind("/") + 1:]


class Ref:
    """Reference tree over canonical absolute paths: path -> None (directory) or text."""

    def __init__(self):
        self.n = {"/": None}

    def copy(self):
        r = Ref()
        r.n = dict(self.n)
        return r

    def isdir(self, p):
        return p in self.n and self.n[p] is None

    def isfile(self, p):
        return p in self.n and self.n[p] is not None

    def parents(self, p):
        out = []
        while p != "/":
            p = parent_of(p)
            out.append(p)
        return out

    def creatable(self, p):
        """All existing ancestors are directories."""
        return all(q not in self.n or self.n[q] is None for q in self.parents(p))

    def mkparents(self, p):
        for q in reversed(self.parents(p)):
            self.n.setdefault(q, None)

    def children(self, p):
        return [q for q in self.n if q != "/" and parent_of(q) == p]

    def drop(self, p):
        for q in [q for q in self.n if under(q, p)]:
            del self.n[q]


# -- operations ------------------------------------------------------------------
def do_op(S, vfs, op, tag, paths, text=None, dirs=None):
    """Perform one filesystem operation on chosen paths: (op, args, ok, value)."""
    p = S.choice(tag + ".p", paths)
    args = {"p": p}
    if op in ("write", "append"):
        t = text if text is not None else S.str(tag + ".t", 0, 1)
        args["t"] = t
        fn = vfs.append_file if op == "append" else vfs.write_file
        ok, v = S.attempt(fn, p, t)
    elif op == "cas":
        t = text if text is not None else S.str(tag + ".t", 0, 1)
        e = S.int(tag + ".e", 0, 4)
        a = S.bool(tag + ".a")
        args.update(t=t, e=e, a=a)
        ok, v = S.attempt(vfs.write_file, p, t, append=a, expected_version=e)
    elif op == "touch":
        ok, v = S.attempt(vfs.touch, p)
    elif op == "mkdir":
        par, exo = S.flag(tag + ".par"), S.flag(tag + ".exo")
        args.update(parents=par, exist_ok=exo)
        ok, v = S.attempt(vfs.mkdir, p, parents=par, exist_ok=exo)
    elif op == "mkdirp":
        args.update(parents=True, exist_ok=True)
        ok, v = S.attempt(vfs.mkdir, p, parents=True, exist_ok=True)
    elif op == "remove":
        rec = S.flag(tag + ".rec")
        args.update(recursive=rec)
        ok, v = S.attempt(vfs.remove, p, recursive=rec)
    elif op == "move":
        q = S.choice(tag + ".q", paths)
        args["q"] = q
        ok, v = S.attempt(vfs.move, p, q)
    elif op == "copy":
        q = S.choice(tag + ".q", paths)
        rec = S.flag(tag + ".rec")
        args.update(q=q, recursive=rec)
        ok, v = S.attempt(vfs.copy, p, q, recursive=rec)
    else:
        raise ValueError(op)
    args["op"] = op
    args["ok"] = ok
    args["v"] = v
    return args


class Done:
    """What a (scripted) host process returns."""

    def __init__(self, args, returncode=0, stdout="", stderr=""):
        self.args, self.returncode, self.stdout, self.stderr = args, returncode, stdout, stderr

    def check_returncode(self):
        if self.returncode:
            raise RuntimeError("host process failed")
