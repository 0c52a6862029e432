"""Dictionaries and sets whose keys may be symbolic.

Keys of primitive concrete type live in a real dict; any other key (symbolic
strings and ints, path objects, frozen dataclasses ...) is found by comparing
with ==, which forks when the comparison is symbolic.
"""

from __future__ import annotations

from collections.abc import Mapping, MutableMapping, MutableSet, Set

from .core import Sym
from .strs import SymStr

_PRIM = (str, int, float, bytes, bool, type(None), type)
_MISSING = object()


def _prim(k):
    return type(k) in (str, int, float, bytes, bool, type(None)) or isinstance(k, type)


class SymDict(MutableMapping):
    """Insertion-ordered dict."""

    __class_getitem__ = classmethod(lambda cls, item: dict[item])

    def __init__(self, *args, **kwargs):
        self._slots = []      # entries [key, value] or None (deleted)
        self._fast = {}       # primitive key -> slot index
        self._slow = []       # slot indexes of non-primitive keys
        self._n = 0
        self.update(*args, **kwargs)

    def _find(self, k):
        if _prim(k):
            i = self._fast.get(k)
            if i is not None:
                return i
            if not isinstance(k, str) and not self._slow:
                return None
            for i in self._slow:
                sk = self._slots[i][0]
                if isinstance(sk, Sym) and sk == k:
                    return i
            return None
        if not isinstance(k, (Sym, tuple, frozenset, SymFrozenSet)):
            hash_check(k)
        for i in self._slow:
            sk = self._slots[i][0]
            if sk is k or sk == k:
                return i
        if isinstance(k, Sym):
            for sk, i in list(self._fast.items()):
                if k == sk:
                    return i
        return None

    def __getitem__(self, k):
        i = self._find(k)
        if i is None:
            raise KeyError(k)
        return self._slots[i][1]

    def __setitem__(self, k, v):
        i = self._find(k)
        if i is not None:
            self._slots[i][1] = v
            return
        i = len(self._slots)
        self._slots.append([k, v])
        self._n += 1
        if _prim(k):
            self._fast[k] = i
        else:
            self._slow.append(i)

    def __delitem__(self, k):
        i = self._find(k)
        if i is None:
            raise KeyError(k)
        key = self._slots[i][0]
        if _prim(key):
            del self._fast[key]
        else:
            self._slow.remove(i)
        self._slots[i] = None
        self._n -= 1

    def __contains__(self, k):
        return self._find(k) is not None

    def __len__(self):
        return self._n

    def __bool__(self):
        return self._n > 0

    def __iter__(self):
        n = self._n
        for e in list(self._slots):
            if e is not None:
                if self._n != n:
                    raise RuntimeError("dictionary changed size during iteration")
                yield e[0]
        if self._n != n:
            raise RuntimeError("dictionary changed size during iteration")

    def __reversed__(self):
        return reversed([e[0] for e in self._slots if e is not None])

    def keys(self):
        return _Keys(self)

    def values(self):
        return _Values(self)

    def items(self):
        return _Items(self)

    def get(self, k, default=None):
        i = self._find(k)
        return default if i is None else self._slots[i][1]

    def setdefault(self, k, default=None):
        i = self._find(k)
        if i is None:
            self[k] = default
            return default
        return self._slots[i][1]

    def pop(self, k, default=_MISSING):
        i = self._find(k)
        if i is None:
            if default is _MISSING:
                raise KeyError(k)
            return default
        v = self._slots[i][1]
        del self[self._slots[i][0]]
        return v

    def popitem(self):
        for e in reversed(self._slots):
            if e is not None:
                k, v = e
                del self[k]
                return (k, v)
        raise KeyError("popitem(): dictionary is empty")

    def clear(self):
        self._slots = []
        self._fast = {}
        self._slow = []
        self._n = 0

    def copy(self):
        return SymDict(self)

    __copy__ = copy

    def update(self, *args, **kwargs):
        if args:
            src = args[0]
            if hasattr(src, "keys"):
                for k in src.keys():
                    self[k] = src[k]
            else:
                for k, v in src:
                    self[k] = v
        for k, v in kwargs.items():
            self[k] = v

    @classmethod
    def fromkeys(cls, it, value=None):
        d = cls()
        for k in it:
            d[k] = value
        return d

    def __or__(self, o):
        if not isinstance(o, (dict, SymDict)):
            return NotImplemented
        d = SymDict(self)
        d.update(o)
        return d

    def __ror__(self, o):
        d = SymDict(o)
        d.update(self)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, (dict, SymDict)):
            return NotImplemented
        if len(self) != len(o):
            return False
        for k, v in self.items():
            w = o[k] if k in o else _MISSING
            if w is _MISSING or not (w is v or w == v):
                return False
        return True

    __hash__ = None

    def __repr__(self):
        return "{" + ", ".join(f"{k!r}: {v!r}" for k, v in self.items()) + "}"


class _View:
    def __init__(self, d):
        self._d = d

    def __len__(self):
        return len(self._d)


class _Keys(_View, Set):
    @classmethod
    def _from_iterable(cls, it):
        return SymSet(it)

    def __iter__(self):
        return iter(self._d)

    def __contains__(self, k):
        return k in self._d

    def __reversed__(self):
        return reversed(self._d)


class _Values(_View):
    def __iter__(self):
        for k in self._d:
            # direct slot access would skip the size check of __iter__
            yield self._d[k] if _prim(k) else _slot_value(self._d, k)

    def __reversed__(self):
        return reversed(list(self))


class _Items(_View, Set):
    @classmethod
    def _from_iterable(cls, it):
        return SymSet(it)

    def __iter__(self):
        for k in self._d:
            yield (k, self._d[k] if _prim(k) else _slot_value(self._d, k))

    def __contains__(self, kv):
        k, v = kv
        return k in self._d and self._d[k] == v

    def __reversed__(self):
        return reversed(list(self))


def _slot_value(d, k):
    for i in d._slow:
        if d._slots[i][0] is k:
            return d._slots[i][1]
    raise KeyError(k)


def hash_check(k):
    """Raise TypeError for unhashable keys, as a real dict would."""
    if type(k).__hash__ is None:
        raise TypeError(f"unhashable type: '{type(k).__name__}'")


class _SetBase:
    __class_getitem__ = classmethod(lambda cls, item: set[item])

    def __init__(self, it=()):
        self._d = SymDict()
        for x in it:
            self._d.setdefault(x, True)

    def __contains__(self, x):
        return x in self._d

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return len(self._d) > 0

    @classmethod
    def _from_iterable(cls, it):
        return cls(it)

    def _new(self, it):
        return type(self)(it)

    def union(self, *its):
        r = type(self)(self)
        for it in its:
            for x in it:
                r._d.setdefault(x, True)
        return r

    def intersection(self, *its):
        r = list(self)
        for it in its:
            it = it if isinstance(it, (_SetBase, set, frozenset, SymDict, dict)) else list(it)
            r = [x for x in r if _member(x, it)]
        return type(self)(r)

    def difference(self, *its):
        r = list(self)
        for it in its:
            it = it if isinstance(it, (_SetBase, set, frozenset, SymDict, dict)) else list(it)
            r = [x for x in r if not _member(x, it)]
        return type(self)(r)

    def symmetric_difference(self, it):
        it = type(self)(it)
        return self.difference(it).union(it.difference(self))

    def issubset(self, it):
        it = it if isinstance(it, (_SetBase, set, frozenset)) else list(it)
        return all(_member(x, it) for x in self)

    def issuperset(self, it):
        return all(x in self for x in it)

    def isdisjoint(self, it):
        return not any(x in self for x in it)

    def copy(self):
        return type(self)(self)

    def _coerce(self, o):
        return isinstance(o, (_SetBase, set, frozenset, Set))

    def __and__(self, o):
        return self.intersection(o) if self._coerce(o) else NotImplemented

    def __rand__(self, o):
        return type(self)(o).intersection(self) if self._coerce(o) else NotImplemented

    def __or__(self, o):
        return self.union(o) if self._coerce(o) else NotImplemented

    __ror__ = __or__

    def __sub__(self, o):
        return self.difference(o) if self._coerce(o) else NotImplemented

    def __rsub__(self, o):
        return type(self)(o).difference(self) if self._coerce(o) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) if self._coerce(o) else NotImplemented

    __rxor__ = __xor__

    def __eq__(self, o):
        if not self._coerce(o):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __le__(self, o):
        return self.issubset(o) if self._coerce(o) else NotImplemented

    def __lt__(self, o):
        return (len(self) < len(o) and self.issubset(o)) if self._coerce(o) else NotImplemented

    def __ge__(self, o):
        return self.issuperset(o) if self._coerce(o) else NotImplemented

    def __gt__(self, o):
        return (len(self) > len(o) and self.issuperset(o)) if self._coerce(o) else NotImplemented

    def __repr__(self):
        body = ", ".join(repr(x) for x in self)
        if isinstance(self, SymFrozenSet):
            return "frozenset({" + body + "})" if body else "frozenset()"
        return "{" + body + "}" if body else "set()"


def _member(x, it):
    if isinstance(it, (set, frozenset, dict)):
        if isinstance(x, Sym):
            return any(x == y for y in it)
        return x in it
    return x in it


class SymSet(_SetBase, MutableSet):
    __hash__ = None

    def add(self, x):
        self._d.setdefault(x, True)

    def discard(self, x):
        self._d.pop(x, None)

    def remove(self, x):
        del self._d[x]

    def pop(self):
        return self._d.popitem()[0]

    def clear(self):
        self._d.clear()

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def difference_update(self, *its):
        for it in its:
            for x in list(it):
                self.discard(x)

    def intersection_update(self, *its):
        r = self.intersection(*its)
        self._d = r._d


class SymFrozenSet(_SetBase, Set):
    def __hash__(self):
        return hash(frozenset(self))


for _c in (SymSet, SymFrozenSet):
    for _n in ("__and__", "__or__", "__sub__", "__xor__", "__rand__", "__ror__", "__rsub__", "__rxor__",
               "__eq__", "__le__", "__lt__", "__ge__", "__gt__", "isdisjoint"):
        setattr(_c, _n, _SetBase.__dict__[_n])
SymSet.__hash__ = None
