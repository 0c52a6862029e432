"""Runtime hooks called by instrumented code."""

from __future__ import annotations

import builtins
import dataclasses
import io
import operator
import os
import re
import sys
import types

from . import core, strs, conts, rex
from .core import Sym, SymBool, SymInt, decide, wrap_bool, zor
from .strs import SymBytes, SymStr, concrete_deep, mk
from .conts import SymDict, SymFrozenSet, SymSet

BUILTIN_FN = (types.BuiltinFunctionType, types.MethodWrapperType, types.WrapperDescriptorType,
              types.MethodDescriptorType, types.ClassMethodDescriptorType)


def active():
    return core.ENGINE is not None


def enter(name):
    e = core.ENGINE
    if e is not None:
        e.functions.add(name)


# ---------------------------------------------------------------------------
# str(), repr(), formatting
# ---------------------------------------------------------------------------
def sx_str(*args, **kw):
    if not args and not kw:
        return ""
    if kw or len(args) != 1:
        x = args[0] if args else None
        if isinstance(x, SymBytes):
            return x.decode(*args[1:], **kw)
        return str(*args, **kw)
    x = args[0]
    if isinstance(x, (str, SymStr)):
        return x
    if isinstance(x, (SymInt, SymBool)):
        return SymStr.lazy(lambda: str(concrete_deep(x)))
    if isinstance(x, BaseException):
        f = type(x).__str__
        if f is OSError.__str__ and len(x.args) < 2:
            f = BaseException.__str__
        if f is BaseException.__str__ or f is KeyError.__str__:
            a = x.args
            if len(a) == 1 and f is BaseException.__str__:
                return sx_str(a[0])
            if len(a) == 1:
                return sx_repr(a[0])
            return str(x) if a else ""
        if isinstance(f, types.FunctionType):
            return f(x)
        if isinstance(x, OSError):
            if any(isinstance(v, Sym) for v in (x.filename, x.strerror) + x.args):
                return SymStr.lazy(lambda: str(x))
            return str(x)
        return str(x)
    f = type(x).__str__
    if isinstance(f, types.FunctionType):
        return f(x)
    if f is object.__str__:
        return sx_repr(x)
    return str(x)


def sx_repr(x):
    if isinstance(x, str):
        return repr(x)
    if isinstance(x, Sym):
        return SymStr.lazy(lambda: repr(concrete_deep(x)))
    if isinstance(x, (int, float, type(None), bytes)):
        return repr(x)
    return SymStr.lazy(lambda: repr(x)) if active() else repr(x)


def sx_format(x, spec=""):
    if spec == "" or spec is None:
        if isinstance(x, (str, SymStr)):
            return x
        if isinstance(x, (SymInt, SymBool)) or isinstance(x, (tuple, list)):
            return sx_str(x)
        f = type(x).__format__
        if f is object.__format__:
            return sx_str(x)
        return format(x, "")
    if isinstance(x, Sym):
        return SymStr.lazy(lambda: format(concrete_deep(x), concrete_deep(spec)))
    return format(x, concrete_deep(spec))


def fstr(*parts):
    """parts: str constants or (value, conversion, spec) tuples."""
    out = []
    lazy = False
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if conv == 114:
                v = sx_repr(v)
            elif conv == 115:
                v = sx_str(v)
            elif conv == 97:
                v = ascii(concrete_deep(v))
            v = sx_format(v, spec)
        else:
            v = p
        if isinstance(v, SymStr) and v._c is None:
            lazy = True
        out.append(v)
    if all(isinstance(v, str) for v in out):
        return "".join(out)
    if lazy:
        return SymStr.lazy(lambda: strs.join("", out))
    return strs.join("", out)


def mod(a, b):
    """a % b"""
    if isinstance(a, (str, SymStr)):
        syms = isinstance(a, SymStr) or isinstance(b, Sym) or (type(b) is tuple and any(isinstance(x, Sym) for x in b))
        if syms:
            return _percent(a, b)
    return a % b


def _percent(a, b):
    if isinstance(a, SymStr):
        a = a.concrete()
    vals = list(b) if type(b) is tuple else [b]
    out = []
    i = 0
    vi = 0
    while i < len(a):
        ch = a[i]
        if ch != "%":
            out.append(ch)
            i += 1
            continue
        if a[i:i + 2] == "%%":
            out.append("%")
            i += 2
            continue
        if a[i:i + 2] in ("%s", "%d", "%r"):
            if vi >= len(vals):
                raise TypeError("not enough arguments for format string")
            v = vals[vi]
            vi += 1
            k = a[i + 1]
            if k == "d" and not isinstance(v, (int, SymInt, SymBool, float)):
                raise TypeError("%d format: a real number is required, not str")
            out.append(sx_repr(v) if k == "r" else sx_str(v))
            i += 2
            continue
        return a % concrete_deep(b)
    if vi != len(vals):
        raise TypeError("not all arguments converted during string formatting")
    return strs.join("", out)


# ---------------------------------------------------------------------------
# membership, containers
# ---------------------------------------------------------------------------
def contains(x, c):
    """x in c"""
    if isinstance(c, str):
        if isinstance(x, SymStr):
            xs = x.c
            if len(xs) == 1:
                return wrap_bool(core.char_in(xs[0], frozenset(map(ord, c))))
            return SymStr(tuple(map(ord, c))).contains(x)
        return x in c
    if isinstance(c, SymStr):
        if not isinstance(x, (str, SymStr)):
            raise TypeError("'in <string>' requires string as left operand, not " + type(x).__name__)
        return c.contains(x)
    if isinstance(c, (tuple, list)):
        if isinstance(x, SymStr) or any(isinstance(y, Sym) for y in c):
            if all(isinstance(y, (str, SymStr, int, type(None), SymInt, SymBool)) for y in c):
                return _any_eq(x, c)
        return x in c
    if isinstance(c, (set, frozenset)):
        if isinstance(x, Sym):
            return _any_eq(x, list(c))
        if any(isinstance(y, Sym) for y in c):
            return _any_eq(x, list(c))
        return x in c
    if isinstance(c, dict) and isinstance(x, Sym):
        return _any_eq(x, list(c))
    if isinstance(c, (type({}.keys()),)) and isinstance(x, Sym):
        return _any_eq(x, list(c))
    return x in c


def _any_eq(x, items):
    conds = []
    singles = []
    for y in items:
        if isinstance(x, SymStr) and isinstance(y, str) and len(y) == 1 and len(x.c) == 1:
            singles.append(ord(y))
            continue
        r = (x is y) or (x == y)
        conds.append(core.as_cond(r))
    if singles:
        conds.append(core.char_in(x.c[0], frozenset(singles)))
    return wrap_bool(zor(conds))


def not_contains(x, c):
    return core.sym_not(contains(x, c))


class Star:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def mkdict(*items):
    d = SymDict() if active() else {}
    for it in items:
        if isinstance(it, Star):
            d.update(it.v)
        else:
            d[it[0]] = it[1]
    return d


def mkdict_pairs(gen):
    d = SymDict() if active() else {}
    for k, v in gen:
        d[k] = v
    return d


def mkset(it):
    return SymSet(it) if active() else set(it)


# ---------------------------------------------------------------------------
# calls
# ---------------------------------------------------------------------------
TYPE_ALIASES = {}


def sx_isinstance(x, t):
    if type(t) is tuple:
        return any(sx_isinstance(x, y) for y in t)
    if isinstance(t, types.UnionType):
        return any(sx_isinstance(x, y) for y in t.__args__)
    if isinstance(x, Sym):
        if isinstance(x, SymStr):
            return t is str or t is object or t is SymStr or (isinstance(t, type) and t.__module__ == "collections.abc" and issubclass(str, t))
        if isinstance(x, SymInt):
            return t is int or t is object or t is SymInt
        if isinstance(x, SymBool):
            return t is bool or t is int or t is object or t is SymBool
        if isinstance(x, SymBytes):
            return t is bytes or t is object
    if isinstance(x, SymDict):
        return t is dict or isinstance(x, t)
    if isinstance(x, SymSet):
        return t is set or isinstance(x, t)
    if isinstance(x, SymFrozenSet):
        return t is frozenset or isinstance(x, t)
    if isinstance(x, SymStringIO):
        return t is io.StringIO or isinstance(x, t)
    return isinstance(x, t)


def sx_len(x):
    if isinstance(x, SymBytes):
        return x.symlen()
    return len(x)


def sx_int(x=0, *a, **k):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return SymInt.of(x)
    if isinstance(x, SymStr):
        if not a and not k:
            return _int_of_symstr(x)
        x = x.concrete()
    return int(x, *a, **k)


def _int_of_symstr(x):
    digits = frozenset(range(48, 58))
    import z3
    if x.c and all((c in digits if isinstance(c, int) else decide(core.char_in(c, digits))) for c in x.c):
        total = z3.IntVal(0)
        for c in x.c:
            d = z3.IntVal(c - 48) if isinstance(c, int) else z3.BV2Int(c) - 48
            total = total * 10 + d
        return core.mkint(total)
    return int(x.concrete())


def sx_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return x != 0
    return bool(x)


def sx_ord(x):
    if isinstance(x, SymStr):
        return ord(x.concrete())
    return ord(x)


def sx_hash(x):
    return hash(x)


def sx_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SymStr):
            return str
        if isinstance(x, SymInt):
            return int
        if isinstance(x, SymBool):
            return bool
        if isinstance(x, SymBytes):
            return bytes
        if isinstance(x, SymDict):
            return dict
        if isinstance(x, SymSet):
            return set
        if isinstance(x, SymFrozenSet):
            return frozenset
    return type(*a)


def sx_fspath(p):
    if isinstance(p, (str, bytes, SymStr)):
        return p
    f = getattr(type(p), "__fspath__", None)
    if isinstance(f, types.FunctionType):
        return f(p)
    return os.fspath(p)


def sx_dict(*a, **k):
    return SymDict(*a, **k) if active() else dict(*a, **k)


def sx_set(*a):
    return SymSet(*a) if active() else set(*a)


def sx_frozenset(*a):
    return SymFrozenSet(*a) if active() else frozenset(*a)


def _factory(f):
    return {dict: sx_dict, set: sx_set, frozenset: sx_frozenset}.get(f, f)


def sx_field(*a, **k):
    if "default_factory" in k:
        k["default_factory"] = _factory(k["default_factory"])
    return dataclasses.field(*a, **k)


def sx_map(f, *its):
    f = _UNARY.get(f, f) if _hashable(f) else f
    if isinstance(f, types.MethodDescriptorType) and f.__objclass__ is str:
        g = f
        return map(lambda x, *r: callm(x, g.__name__, *r), *its)
    return map(lambda *a: call(f, *a), *its)


def sx_filter(f, it):
    if f is None:
        return filter(None, it)
    return filter(lambda x: call(f, x), it)


def sx_sorted(it, *, key=None, reverse=False):
    if key is not None:
        k0 = key
        key = lambda x: call(k0, x)
    return sorted(it, key=key, reverse=reverse)


def sx_minmax(f):
    def g(*a, **k):
        if k.get("key") is not None:
            k0 = k["key"]
            k["key"] = lambda x: call(k0, x)
        return f(*a, **k)
    return g


def sx_getattr(o, name, *d):
    return getattr(o, concrete_deep(name), *d)


def sx_print(*a, **k):
    f = k.get("file")
    if f is None:
        f = sys.stdout
    if active() and isinstance(f, SYMBOLIC_STREAMS):
        sep, end = k.get("sep"), k.get("end")
        f.write(strs.join("", [strs.join(" " if sep is None else sep, [sx_str(x) for x in a]), "\n" if end is None else end]))
        return None
    return print(*[concrete_deep(x) for x in a], **k)


def sx_memoryview(x):
    return x if isinstance(x, SymBytes) else memoryview(x)


def sx_bytes(*a, **k):
    if a and isinstance(a[0], SymBytes):
        return a[0]
    if a and isinstance(a[0], SymStr):
        return a[0].encode(*a[1:], **k)
    return bytes(*concrete_deep(a), **concrete_deep(k))


def sx_intern(s):
    return s if isinstance(s, SymStr) else sys.intern(s)


class SymStringIO:
    """io.StringIO over possibly symbolic text."""

    def __init__(self, initial="", newline="\n"):
        self._buf = initial
        self._pos = 0

    def read(self, n=-1):
        n = -1 if n is None else int(n)
        end = len(self._buf) if n < 0 else min(len(self._buf), self._pos + n)
        r = self._buf[self._pos:end]
        self._pos = end
        return r

    def readline(self, n=-1):
        rest = self._buf[self._pos:]
        i = rest.find("\n")
        r = rest if i < 0 else rest[:i + 1]
        self._pos += len(r)
        return r

    def __iter__(self):
        while True:
            line = self.readline()
            if not line:
                return
            yield line

    def readlines(self):
        return list(self)

    def write(self, s):
        self._buf = self._buf[:self._pos] + s + self._buf[self._pos + len(s):]
        self._pos += len(s)
        return len(s)

    def writelines(self, it):
        for x in it:
            self.write(x)

    def getvalue(self):
        return self._buf

    def seek(self, p, w=0):
        self._pos = p if w == 0 else (len(self._buf) if w == 2 else self._pos + p)
        return self._pos

    def tell(self):
        return self._pos

    def close(self):
        pass

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


SYMBOLIC_STREAMS = (SymStringIO,)


def sx_stringio(initial="", newline="\n"):
    if active():
        return SymStringIO(initial if initial is not None else "")
    return io.StringIO(initial, newline)


def _hashable(f):
    try:
        hash(f)
        return True
    except TypeError:
        return False


def _re_module(name):
    def g(pattern, *a, **k):
        if isinstance(pattern, SymStr):
            pattern = pattern.concrete()
        if name == "compile":
            return re.compile(pattern, *concrete_deep(a), **concrete_deep(k))
        if any(isinstance(x, SymStr) for x in a) or any(isinstance(x, SymStr) for x in k.values()):
            flags = k.pop("flags", 0)
            limits = {"search": 1, "match": 1, "fullmatch": 1, "findall": 1, "finditer": 1, "sub": 3, "subn": 3, "split": 2}
            n = limits[name]
            if len(a) > n:
                flags = a[n]
                a = a[:n]
            pat = re.compile(pattern, int(flags))
            return rex.method(pat, name)(*a, **k)
        if name in ("sub", "subn") and a and not isinstance(a[0], str):
            return getattr(re, name)(pattern, *a, **k)
        return getattr(re, name)(pattern, *a, **k)
    return g


def sx_escape(p):
    if isinstance(p, SymStr):
        return re.escape(p.concrete())
    return re.escape(p)


def sx_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


DISPATCH = {
    str: sx_str, repr: sx_repr, format: sx_format, isinstance: sx_isinstance, len: sx_len, int: sx_int,
    bool: sx_bool, ord: sx_ord, type: sx_type, dict: sx_dict, set: sx_set, frozenset: sx_frozenset,
    map: sx_map, filter: sx_filter, sorted: sx_sorted, min: sx_minmax(min), max: sx_minmax(max),
    getattr: sx_getattr, print: sx_print, sum: sx_sum, memoryview: sx_memoryview, bytes: sx_bytes,
    os.fspath: sx_fspath, sys.intern: sx_intern, io.StringIO: sx_stringio,
    dataclasses.field: sx_field, re.escape: sx_escape,
    operator.contains: lambda c, x: contains(x, c),
}
for _n in ("compile", "search", "match", "fullmatch", "findall", "finditer", "sub", "subn", "split"):
    DISPATCH[getattr(re, _n)] = _re_module(_n)
_UNARY = {str: sx_str, len: sx_len, repr: sx_repr, int: sx_int, bool: sx_bool, dict: sx_dict, set: sx_set}

# C callables that are fine with arbitrary objects as arguments
SAFE = {list, tuple, zip, enumerate, reversed, iter, next, any, all, id, callable, super, object, range, slice,
        property, staticmethod, classmethod, vars, dir, setattr, hasattr, delattr, issubclass, hash, abs, round}


def _has_sym(a, k):
    for x in a:
        if isinstance(x, (Sym, SymDict)):
            return True
        if type(x) in (tuple, list) and any(isinstance(y, Sym) for y in x):
            return True
    for x in k.values():
        if isinstance(x, Sym):
            return True
    return False


def call(f, /, *a, **k):
    try:
        h = DISPATCH.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    t = type(f)
    if t is types.FunctionType or t is types.MethodType:
        return f(*a, **k)
    if t is type or isinstance(f, type):
        if f in SAFE or f.__module__ != "builtins" or issubclass(f, BaseException):
            return f(*a, **k)
        if _has_sym(a, k):
            return f(*concrete_deep(a), **concrete_deep(k))
        return f(*a, **k)
    if isinstance(f, BUILTIN_FN):
        s = getattr(f, "__self__", None)
        if s is None or isinstance(s, types.ModuleType) or isinstance(s, type):
            oc = getattr(f, "__objclass__", None)
            if oc is str or s is str:
                # str.join(sep, it), str.lower(x) ...
                if oc is str and a:
                    return callm(a[0], f.__name__, *a[1:], **k)
            if oc in (list, dict, set, frozenset, tuple, object) or f in SAFE:
                if oc is dict and a and isinstance(a[0], SymDict):
                    return getattr(a[0], f.__name__)(*a[1:], **k)
                return f(*a, **k)
            if s is dict and f.__name__ == "fromkeys":
                return SymDict.fromkeys(*a, **k)
            if isinstance(s, type) and not isinstance(s, type(int)):
                return f(*a, **k)
            if _has_sym(a, k) and (s is None or isinstance(s, type) and s.__module__ == "builtins" or isinstance(s, types.ModuleType)):
                if isinstance(s, type) and s is object or f.__name__ in ("__new__", "__setattr__", "__init__", "heappush"):
                    return f(*a, **k)
                return f(*concrete_deep(a), **concrete_deep(k))
            return f(*a, **k)
        return _bound_builtin(f, s, f.__name__, a, k)
    return f(*a, **k)


_STR_ARG_LISTS = ("join",)


def _bound_builtin(f, s, name, a, k):
    if type(s) is str:
        return _strm(s, name, a, k)
    if isinstance(s, re.Pattern):
        return _patm(s, name, a, k)
    if isinstance(s, re.Match):
        return f(*concrete_deep(a), **k) if _has_sym(a, k) else f(*a, **k)
    if isinstance(s, (bytes, int, float)) and _has_sym(a, k):
        return f(*concrete_deep(a), **concrete_deep(k))
    if isinstance(s, (io.IOBase,)) and _has_sym(a, k):
        return f(*concrete_deep(a), **concrete_deep(k))
    if name == "sort" and k.get("key") is not None:
        k0 = k["key"]
        k = dict(k, key=lambda x: call(k0, x))
    return f(*a, **k)


def _strm(s, name, a, k):
    if name == "join":
        return strs.join(s, a[0])
    if name == "format":
        if _has_sym(a, k) or any(not isinstance(x, (str, int, float)) for x in a):
            return _str_format(s, a, k)
        return s.format(*a, **k)
    if _has_sym(a, k):
        if name in ("encode", "maketrans", "translate"):
            return getattr(s, name)(*concrete_deep(a), **k)
        return getattr(SymStr(tuple(map(ord, s))), name)(*a, **k)
    return getattr(s, name)(*a, **k)


def _str_format(s, a, k):
    import string
    out = []
    auto = 0
    for lit, fieldname, spec, conv in string.Formatter().parse(s):
        if lit:
            out.append(lit)
        if fieldname is None:
            continue
        if fieldname == "":
            fieldname = str(auto)
            auto += 1
        m = re.match(r"^(\w+)$", fieldname)
        if not m:
            return s.format(*concrete_deep(a), **concrete_deep(k))
        v = a[int(fieldname)] if fieldname.isdigit() else k[fieldname]
        out.append((v, ord(conv) if conv else -1, spec or ""))
    return fstr(*out)


def _patm(p, name, a, k):
    if name in ("search", "match", "fullmatch", "findall", "finditer", "sub", "subn", "split"):
        subject_i = 1 if name in ("sub", "subn") else 0
        subj = a[subject_i] if len(a) > subject_i else k.get("string")
        if isinstance(subj, SymStr) or _has_sym(a, k):
            return rex.method(p, name)(*a, **k)
        if name in ("sub", "subn") and a and not isinstance(a[0], str):
            # replacement callable may return symbolic text
            return rex.method(p, name)(*a, **k)
    return getattr(p, name)(*a, **k)


def callm(o, name, /, *a, **k):
    """o.name(*a, **k)"""
    t = type(o)
    if t is str:
        return _strm(o, name, a, k)
    if t is re.Pattern:
        return _patm(o, name, a, k)
    f = getattr(o, name)
    ft = type(f)
    if ft is types.MethodType or ft is types.FunctionType:
        if ft is types.FunctionType:
            try:
                h = DISPATCH.get(f)
            except TypeError:
                h = None
            if h is not None:
                return h(*a, **k)
        return f(*a, **k)
    return call(f, *a, **k)


def sx_exec(code, env=None, loc=None):
    """exec() with namespaces that may be SymDict; the code runs instrumented."""
    import sys as _s
    if env is None:
        f = _s._getframe(1)
        return exec(code, f.f_globals, f.f_locals)
    if not isinstance(env, SymDict):
        return exec(code, env) if loc is None else exec(code, env, loc)
    real = {concrete_deep(k): v for k, v in env.items()}
    b = real.get("__builtins__")
    sym = isinstance(b, SymDict)
    if sym:
        real["__builtins__"] = given = {concrete_deep(k): v for k, v in b.items()}
        for n in HELPERS:
            given.setdefault(n, globals()[HELPERS[n]])
    code = concrete_deep(code)
    if isinstance(code, str):
        code = sx_compile(code, "<string>", "exec")
    try:
        if loc is None or loc is env:
            exec(code, real, real)
        else:
            exec(code, real, loc)
    finally:
        if sym:
            back(b, given, HELPERS)
            if real.get("__builtins__") is given:
                real["__builtins__"] = b
        back(env, real, ())


def back(sd, real, skip):
    for k in [concrete_deep(k) for k in sd.keys()]:
        if k not in real:
            del sd[k]
    for k, v in real.items():
        if k not in skip and not (k in sd and sd[k] is v):
            sd[k] = v


HELPERS = dict(_sx_enter="enter", _sx_call="call", _sx_callm="callm", _sx_in="contains", _sx_notin="not_contains", _sx_mod="mod", _sx_fstr="fstr",
               _sx_mkdict="mkdict", _sx_mkdict_pairs="mkdict_pairs", _sx_mkset="mkset", _sx_Star="Star", _sx_exec="sx_exec", _sx_compile="sx_compile")


def sx_compile(src, filename="<string>", mode="exec", *a, **k):
    src, filename, mode = concrete_deep(src), concrete_deep(filename), concrete_deep(mode)
    if active() and mode == "exec" and isinstance(src, str):
        from . import xform
        compile(src, filename, mode, *a, **k)     # errors as the real one reports them
        return xform.transform(src, filename, filename, True)
    return compile(src, filename, mode, *a, **k)
