"""Symbolic strings: concrete length per path, symbolic code points."""

from __future__ import annotations

import z3

from . import core
from .core import (Sym, SymBool, SymInt, bv, char_eq, char_in, decide, mkint,
                   wrap_bool, zand, zor, znot)

LINEBREAKS = frozenset([0x0A, 0x0B, 0x0C, 0x0D, 0x1C, 0x1D, 0x1E, 0x85, 0x2028, 0x2029])
ASCII = frozenset(range(128))
_ALL_SPACE = frozenset(i for i in range(0x3001) if chr(i).isspace())


def is_strlike(x):
    return isinstance(x, (str, SymStr))


def chars_of(x):
    if isinstance(x, SymStr):
        return x.c
    return tuple(map(ord, x))


def mk(chars):
    """Tuple of code points (int or z3) -> str if fully concrete, else SymStr."""
    e = core.ENGINE
    out = None
    allc = True
    for i, ch in enumerate(chars):
        if isinstance(ch, int):
            continue
        dom = e.domains.get(ch.get_id()) if e is not None else None
        if dom is not None and len(dom) == 1:
            if out is None:
                out = list(chars)
            out[i] = next(iter(dom))
            continue
        allc = False
    if out is not None:
        chars = tuple(out)
    if allc:
        return "".join(map(chr, chars))
    return SymStr(tuple(chars))


class SymStr(Sym):
    __slots__ = ("_c", "_thunk")

    def __init__(self, c, thunk=None):
        self._c = c
        self._thunk = thunk

    @staticmethod
    def lazy(thunk):
        return SymStr(None, thunk)

    @property
    def c(self):
        if self._c is None:
            t = self._thunk
            self._thunk = None
            self._c = chars_of(t())
        return self._c

    # -- conversion --------------------------------------------------------
    def concrete(self):
        out = []
        for ch in self.c:
            if isinstance(ch, int):
                out.append(chr(ch))
            else:
                out.append(chr(core.ENGINE.concretise(ch).as_long()))
        return "".join(out)

    def __str__(self):
        return self.concrete()

    def __repr__(self):
        return repr(self.concrete())

    def __hash__(self):
        return hash(self.concrete())

    def __fspath__(self):
        return self.concrete()

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __bool__(self):
        return len(self.c) > 0

    def __len__(self):
        return len(self.c)

    def __iter__(self):
        for ch in self.c:
            yield mk((ch,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mk(self.c[i])
        return mk((self.c[i],))

    def __getattr__(self, name):
        # any str method not modelled below: enumerate the values (sound)
        if name.startswith("__"):
            raise AttributeError(name)
        real = getattr(str, name, None)
        if real is None:
            raise AttributeError(name)

        def fallback(*a, **k):
            return getattr(self.concrete(), name)(*[concrete_deep(x) for x in a],
                                                  **{q: concrete_deep(v) for q, v in k.items()})
        return fallback

    # -- comparison --------------------------------------------------------
    def eqc(self, o):
        a, b = self.c, chars_of(o)
        if len(a) != len(b):
            return False
        return zand([char_eq(x, y) for x, y in zip(a, b)])

    def __eq__(self, o):
        if o is self:
            return True
        if not is_strlike(o):
            return NotImplemented
        return wrap_bool(self.eqc(o))

    def __ne__(self, o):
        if o is self:
            return False
        if not is_strlike(o):
            return NotImplemented
        return wrap_bool(znot(self.eqc(o)))

    def _ltc(self, o, strict):
        a, b = self.c, chars_of(o)
        n = min(len(a), len(b))
        # from the end: result = (a[i]<b[i]) or (a[i]==b[i] and rest)
        res = (len(a) < len(b)) if strict else (len(a) <= len(b))
        for i in range(n - 1, -1, -1):
            x, y = a[i], b[i]
            eq = char_eq(x, y)
            if isinstance(x, int) and isinstance(y, int):
                lt = x < y
            else:
                lt = z3.ULT(bv(x) if isinstance(x, int) else x, bv(y) if isinstance(y, int) else y)
            res = zor([lt, zand([eq, res])])
        return res

    def __lt__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return wrap_bool(self._ltc(o, True))

    def __le__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return wrap_bool(self._ltc(o, False))

    def __gt__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return wrap_bool(znot(self._ltc(o, False)))

    def __ge__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return wrap_bool(znot(self._ltc(o, True)))

    # -- building ------------------------------------------------------------
    def __add__(self, o):
        if not is_strlike(o):
            return NotImplemented
        if isinstance(o, SymStr) and (o._c is None or self._c is None) or self._c is None:
            return SymStr.lazy(lambda: mk(self.c + chars_of(o)))
        return mk(self.c + chars_of(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        if self._c is None:
            return SymStr.lazy(lambda: mk(chars_of(o) + self.c))
        return mk(chars_of(o) + self.c)

    def __mul__(self, n):
        return mk(self.c * int(n))
    __rmul__ = __mul__

    def __mod__(self, args):
        return self.concrete() % concrete_deep(args)

    # -- searching -------------------------------------------------------------
    def _match_at(self, sub, i):
        a = self.c
        return zand([char_eq(a[i + j], sub[j]) for j in range(len(sub))])

    def _contains_cond(self, sub):
        s = chars_of(sub)
        return zor([self._match_at(s, i) for i in range(len(self.c) - len(s) + 1)])

    def __contains__(self, sub):
        if not is_strlike(sub):
            raise TypeError("'in <string>' requires string as left operand, not " + type(sub).__name__)
        return decide(self._contains_cond(sub))

    def contains(self, sub):
        return wrap_bool(self._contains_cond(sub))

    def _range(self, start, end):
        n = len(self.c)
        start = 0 if start is None else int(start)
        end = n if end is None else int(end)
        if start < 0:
            start = max(0, start + n)
        if end < 0:
            end = max(0, end + n)
        return start, min(end, n)

    def find(self, sub, start=None, end=None):
        s = chars_of(sub)
        lo, hi = self._range(start, end)
        for i in range(lo, hi - len(s) + 1):
            if decide(self._match_at(s, i)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        s = chars_of(sub)
        lo, hi = self._range(start, end)
        for i in range(hi - len(s), lo - 1, -1):
            if decide(self._match_at(s, i)):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        s = chars_of(sub)
        lo, hi = self._range(start, end)
        if not s:
            return max(0, hi - lo + 1)
        n, i = 0, lo
        while i + len(s) <= hi:
            if decide(self._match_at(s, i)):
                n += 1
                i += len(s)
            else:
                i += 1
        return n

    def startswith(self, prefix, start=None, end=None):
        if isinstance(prefix, tuple):
            return sym_any(self.startswith(p, start, end) for p in prefix)
        s = chars_of(prefix)
        lo, hi = self._range(start, end)
        if lo + len(s) > hi:
            return False
        return wrap_bool(self._match_at(s, lo))

    def endswith(self, suffix, start=None, end=None):
        if isinstance(suffix, tuple):
            return sym_any(self.endswith(p, start, end) for p in suffix)
        s = chars_of(suffix)
        lo, hi = self._range(start, end)
        if hi - lo < len(s):
            return False
        return wrap_bool(self._match_at(s, hi - len(s)))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self.c) - len(p)] if len(p) and self.endswith(p) else self

    # -- splitting ---------------------------------------------------------------
    def split(self, sep=None, maxsplit=-1):
        a = self.c
        maxsplit = int(maxsplit)
        out = []
        if sep is None:
            i, n = 0, len(a)
            while True:
                while i < n and decide(char_in(a[i], _ALL_SPACE)):
                    i += 1
                if i >= n:
                    return out
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = n
                    while j > i and decide(char_in(a[j - 1], _ALL_SPACE)):
                        j -= 1
                    out.append(mk(a[i:j]))
                    return out
                j = i
                while j < n and not decide(char_in(a[j], _ALL_SPACE)):
                    j += 1
                out.append(mk(a[i:j]))
                i = j
        s = chars_of(sep)
        if not s:
            raise ValueError("empty separator")
        start = i = 0
        while i + len(s) <= len(a):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if decide(self._match_at(s, i)):
                out.append(mk(a[start:i]))
                i += len(s)
                start = i
            else:
                i += 1
        out.append(mk(a[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = int(maxsplit)
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            return self.concrete().rsplit(sep, maxsplit)
        a = self.c
        s = chars_of(sep)
        out = []
        end = len(a)
        i = end - len(s)
        while i >= 0 and len(out) < maxsplit:
            if decide(self._match_at(s, i)):
                out.append(mk(a[i + len(s):end]))
                end = i
                i -= len(s)
            else:
                i -= 1
        out.append(mk(a[:end]))
        out.reverse()
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (self[:i], sep, self[i + len(sep):])

    def splitlines(self, keepends=False):
        a = self.c
        out = []
        start = i = 0
        n = len(a)
        while i < n:
            if decide(char_in(a[i], LINEBREAKS)):
                end = i
                if decide(char_eq(a[i], 13)) and i + 1 < n and decide(char_eq(a[i + 1], 10)):
                    i += 1
                i += 1
                out.append(mk(a[start:i] if keepends else a[start:end]))
                start = i
            else:
                i += 1
        if start < n:
            out.append(mk(a[start:]))
        return out

    def join(self, it):
        return join(self, it)

    def _stripset(self, chars):
        if chars is None:
            return lambda ch: char_in(ch, _ALL_SPACE)
        cs = chars_of(chars)
        return lambda ch: zor([char_eq(ch, x) for x in cs])

    def lstrip(self, chars=None):
        t = self._stripset(chars)
        a = self.c
        i = 0
        while i < len(a) and decide(t(a[i])):
            i += 1
        return mk(a[i:])

    def rstrip(self, chars=None):
        t = self._stripset(chars)
        a = self.c
        j = len(a)
        while j > 0 and decide(t(a[j - 1])):
            j -= 1
        return mk(a[:j])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def replace(self, old, new, count=-1):
        a, s, r = self.c, chars_of(old), chars_of(new)
        count = int(count)
        if not s:
            return mk(chars_of(self.concrete().replace("", str(new), count)))
        out = []
        i = 0
        done = 0
        while i < len(a):
            if i + len(s) <= len(a) and (count < 0 or done < count) and decide(self._match_at(s, i)):
                out.extend(r)
                i += len(s)
                done += 1
            else:
                out.append(a[i])
                i += 1
        return mk(tuple(out))

    def translate(self, table):
        return self.concrete().translate(table)

    # -- case and classes -----------------------------------------------------
    def _map_ascii(self, lo, hi, delta, realname):
        out = []
        for ch in self.c:
            if isinstance(ch, int):
                r = getattr(chr(ch), realname)()
                out.extend(map(ord, r))
                continue
            dom = core.ENGINE.domains.get(ch.get_id())
            if dom is not None and dom <= ASCII:
                ascii_ = True
            else:
                ascii_ = decide(z3.ULT(ch, bv(128)))
            if not ascii_:
                v = core.ENGINE.concretise(ch).as_long()
                out.extend(map(ord, getattr(chr(v), realname)()))
                continue
            if dom is not None and not any(lo <= d <= hi for d in dom):
                out.append(ch)
                continue
            out.append(z3.If(z3.And(z3.UGE(ch, bv(lo)), z3.ULE(ch, bv(hi))), ch + bv(delta % (1 << core.CHAR_BITS)), ch))
        return mk(tuple(out))

    def lower(self):
        # (the lower case of a capital sigma depends on what is around it: decided on one concrete text)
        for ch in self.c:
            dom = None if isinstance(ch, int) else core.ENGINE.domains.get(ch.get_id())
            if (ch == 0x3A3 if isinstance(ch, int) else 0x3A3 in dom if dom is not None else False):
                return "".join(chr(x if isinstance(x, int) else core.ENGINE.concretise(x).as_long()) for x in self.c).lower()
        return self._map_ascii(65, 90, 32, "lower")

    def casefold(self):
        return self._map_ascii(65, 90, 32, "casefold")

    def upper(self):
        return self._map_ascii(97, 122, -32, "upper")

    def _allclass(self, name):
        if not self.c:
            return False
        conds = []
        cs = frozenset(i for i in range(128) if getattr(chr(i), name)())
        for ch in self.c:
            if isinstance(ch, int):
                conds.append(getattr(chr(ch), name)())
                continue
            dom = core.ENGINE.domains.get(ch.get_id())
            if dom is not None:
                conds.append(char_in(ch, frozenset(d for d in dom if getattr(chr(d), name)())))
            elif decide(z3.ULT(ch, bv(128))):
                conds.append(char_in(ch, cs))
            else:
                conds.append(getattr(chr(core.ENGINE.concretise(ch).as_long()), name)())
        return wrap_bool(zand(conds))

    def isdigit(self): return self._allclass("isdigit")
    def isdecimal(self): return self._allclass("isdecimal")
    def isalpha(self): return self._allclass("isalpha")
    def isalnum(self): return self._allclass("isalnum")
    def isspace(self): return self._allclass("isspace")
    def isascii(self): return wrap_bool(zand([char_in(c, ASCII) if not isinstance(c, int) else c < 128 for c in self.c]))

    def ljust(self, n, fill=" "):
        pad = int(n) - len(self.c)
        return self if pad <= 0 else self + fill * pad

    def rjust(self, n, fill=" "):
        pad = int(n) - len(self.c)
        return self if pad <= 0 else fill * pad + self

    def encode(self, encoding="utf-8", errors="strict"):
        return SymBytes(self, encoding, errors)


def sym_any(it):
    return wrap_bool(zor([core.as_cond(x) for x in it]))


def join(sep, it):
    items = list(it)
    for i, x in enumerate(items):
        if not is_strlike(x):
            raise TypeError(f"sequence item {i}: expected str instance, {type(x).__name__} found")
    if isinstance(sep, str) and all(isinstance(x, str) for x in items):
        return sep.join(items)
    if any(isinstance(x, SymStr) and x._c is None for x in items):
        return SymStr.lazy(lambda: _join(sep, items))
    return _join(sep, items)


def _join(sep, items):
    s = chars_of(sep)
    out = []
    for i, x in enumerate(items):
        if i:
            out.extend(s)
        out.extend(chars_of(x))
    return mk(tuple(out))


def concrete_deep(x, depth=3):
    if isinstance(x, SymStr):
        return x.concrete()
    if isinstance(x, SymBytes):
        return x.concrete()
    if isinstance(x, SymInt):
        return int(x)
    if isinstance(x, SymBool):
        return bool(x)
    if depth and type(x) in (tuple, list):
        return type(x)(concrete_deep(y, depth - 1) for y in x)
    if type(x).__name__ == "SymDict":
        return {concrete_deep(k, depth): concrete_deep(v, depth) for k, v in x.items()}
    if type(x).__name__ in ("SymSet", "SymFrozenSet"):
        return (set if type(x).__name__ == "SymSet" else frozenset)(concrete_deep(k, depth) for k in x)
    if depth and type(x) is dict:
        return {concrete_deep(k, depth - 1): concrete_deep(v, depth - 1) for k, v in x.items()}
    return x


class SymBytes(Sym):
    """Encoded text, kept as text; length is computed symbolically for UTF-8."""
    __slots__ = ("s", "encoding", "errors")

    def __init__(self, s, encoding="utf-8", errors="strict"):
        self.s = s
        self.encoding = str(encoding).lower().replace("_", "-")
        self.errors = errors
        if self.encoding in ("utf-8", "utf8"):
            for ch in s.c:
                if not isinstance(ch, int):
                    dom = core.ENGINE.domains.get(ch.get_id())
                    if dom is not None and not any(0xD800 <= d <= 0xDFFF for d in dom):
                        continue
                    if decide(z3.And(z3.UGE(ch, bv(0xD800)), z3.ULE(ch, bv(0xDFFF)))):
                        raise_or_replace = s.concrete().encode(encoding, errors)  # may raise as the real one
                        self.s = raise_or_replace.decode(encoding, "surrogatepass")
                        return
                elif 0xD800 <= ch <= 0xDFFF:
                    self.s = s.concrete().encode(encoding, errors).decode(encoding, "surrogatepass")
                    return

    def concrete(self):
        return str(self.s).encode(self.encoding, self.errors)

    def symlen(self):
        if self.encoding not in ("utf-8", "utf8") or isinstance(self.s, str):
            return len(self.concrete())
        total = 0
        terms = []
        for ch in self.s.c:
            if isinstance(ch, int):
                total += len(chr(ch).encode("utf-8", "surrogatepass"))
                continue
            dom = core.ENGINE.domains.get(ch.get_id())
            if dom is not None:
                sizes = {len(chr(d).encode("utf-8", "surrogatepass")) for d in dom}
                if len(sizes) == 1:
                    total += sizes.pop()
                    continue
            terms.append(z3.If(z3.ULT(ch, bv(0x80)), z3.IntVal(1),
                               z3.If(z3.ULT(ch, bv(0x800)), z3.IntVal(2),
                                     z3.If(z3.ULT(ch, bv(0x10000)), z3.IntVal(3), z3.IntVal(4)))))
        if not terms:
            return total
        return mkint(z3.Sum(*terms, z3.IntVal(total)) if len(terms) > 1 else terms[0] + total)

    def __len__(self):
        return int(self.symlen())

    def __bool__(self):
        return len(self.s) > 0

    def decode(self, encoding="utf-8", errors="strict"):
        if str(encoding).lower().replace("_", "-") in ("utf-8", "utf8") and self.encoding in ("utf-8", "utf8"):
            return self.s
        return self.concrete().decode(encoding, errors)

    def _o(self, o):
        if isinstance(o, SymBytes):
            return o.s
        return o.decode("utf-8", "surrogateescape")

    def __eq__(self, o):
        if isinstance(o, SymBytes):
            return self.s == o.s
        if isinstance(o, (bytes, bytearray)):
            if self.encoding in ("utf-8", "utf8"):
                return self.s == bytes(o).decode("utf-8", "surrogateescape")
            return self.concrete() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else core.sym_not(r)

    def __hash__(self):
        return hash(self.concrete())

    def __add__(self, o):
        s = self.s + self._o(o)
        return s.encode()

    def __radd__(self, o):
        s = self._o(o) + self.s
        return s.encode()

    def __getitem__(self, i):
        return self.concrete()[i]

    def __iter__(self):
        return iter(self.concrete())

    def __repr__(self):
        return repr(self.concrete())

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if not hasattr(bytes, name):
            raise AttributeError(name)
        return lambda *a, **k: getattr(self.concrete(), name)(*[concrete_deep(x) for x in a], **k)
