"""The interface a harness sees: symbolic inputs, assumptions, obligations.

The same harness source runs in two modes: symbolic (values are solver
variables, checks become obligations) and plain (values come from a concrete
counterexample, checks are ordinary assertions over the unmodified code)."""

from __future__ import annotations

import contextlib
import sys

import z3

from . import core, rt
from .core import (CHAR_BITS, PathAbort, SymBool, SymInt, Unsupported, as_cond, bv, sym_and, sym_not, sym_or)
from .strs import SymStr, mk
from .conts import SymDict


class CheckFailed(Exception):
    pass


class AssumeFailed(BaseException):
    pass


class KnownHit(BaseException):
    pass


class _In:
    def __init__(self, fn):
        self.concrete = fn


def _mval(model, expr):
    v = model.eval(expr, model_completion=True)
    return v


class Base:
    def __init__(self, loader, tier="quick"):
        self.loader = loader
        self.fs = loader.world
        self.tier = tier
        self.thorough = tier == "thorough"
        self.sandfs = loader.load("sandfs")
        self.exc = loader.load("sandfs.exceptions")
        self.SandboxError = self.exc.SandboxError
        self.pathlib = loader.load("pathlib")

    def attempt(self, fn, *a, also=(), **k):
        """(True, value) or (False, exception) for documented failures."""
        try:
            return True, fn(*a, **k)
        except (self.SandboxError,) + tuple(also) as exc:
            return False, exc

    def mod(self, name):
        return self.loader.load("sandfs." + name)

    @contextlib.contextmanager
    def console(self, lines=(), end=EOFError):
        """Stand-ins for the console: yields an object with out and err; input() delivers lines, then raises."""
        con = Console(list(lines), end)
        saved = sys.stdout, sys.stderr, sys.stdin
        builtin = self.loader.builtins["input"]
        sys.stdout, sys.stderr, sys.stdin = con.stdout, con.stderr, con
        self.loader.builtins["input"] = con.input
        try:
            yield con
        finally:
            sys.stdout, sys.stderr, sys.stdin = saved
            self.loader.builtins["input"] = builtin


class _Out:
    encoding = "utf-8"

    def __init__(self):
        self.text = ""

    def write(self, s):
        self.text = self.text + s
        return len(s)

    def writelines(self, it):
        for x in it:
            self.write(x)

    def flush(self):
        pass

    def isatty(self):
        return False


rt.SYMBOLIC_STREAMS += (_Out,)


class Console:
    encoding = "utf-8"

    def __init__(self, lines, end):
        self.stdout, self.stderr = _Out(), _Out()
        self.lines, self.end = lines, end
        self.prompts = []

    @property
    def out(self):
        return self.stdout.text

    @property
    def err(self):
        return self.stderr.text

    def input(self, prompt=""):
        self.prompts.append(prompt)
        if not self.lines:
            raise self.end()
        return self.lines.pop(0)

    def readline(self, n=-1):
        return self.lines.pop(0) + "\n" if self.lines else ""

    def __iter__(self):
        while self.lines:
            yield self.readline()

    def read(self, n=-1):
        return "".join(self)

    def isatty(self):
        return False


class SymSession(Base):
    symbolic = True

    def __init__(self, loader, tier="quick", known=()):
        super().__init__(loader, tier)
        self.known_ids = set(known)
        self.covers = core.ENGINE.path_covers

    # -- inputs ----------------------------------------------------------------
    def _reg(self, name, fn):
        e = core.ENGINE
        if name in e.inputs:
            raise RuntimeError(f"duplicate input {name}")
        e.inputs[name] = _In(fn)

    def bool(self, name):
        z = z3.Bool(name)
        self._reg(name, lambda m: z3.is_true(_mval(m, z)))
        return SymBool(z)

    def int(self, name, lo, hi):
        z = z3.Int(name)
        self._reg(name, lambda m: _mval(m, z).as_long())
        core.ENGINE.assume(z3.And(z >= lo, z <= hi))
        return SymInt(z)

    def pick(self, name, n):
        """A concrete integer 0..n-1 chosen by the solver, forking."""
        if n == 1:
            z = z3.IntVal(0)
            self._reg(name, lambda m: 0)
            return 0
        z = z3.Int(name)
        self._reg(name, lambda m: _mval(m, z).as_long())
        core.ENGINE.assume(z3.And(z >= 0, z < n))
        return core.ENGINE.concretise(z).as_long()

    def choice(self, name, options):
        options = list(options)
        return options[self.pick(name, len(options))]

    def flag(self, name):
        """A boolean decided immediately."""
        return bool(self.bool(name))

    def str(self, name, lo, hi, alphabet=None, full=False):
        e = core.ENGINE
        ln = lo
        if hi > lo:
            zl = z3.Int(name + "#len")
            e.assume(z3.And(zl >= lo, zl <= hi))
            ln = e.concretise(zl).as_long()
        cs = [z3.BitVec(f"{name}!{i}", CHAR_BITS) for i in range(ln)]
        if alphabet is not None:
            dom = frozenset(map(ord, alphabet))
            conds = []
            for c in cs:
                conds.append(core._set_formula(c, dom) if len(dom) > 1 else c == bv(next(iter(dom))))
                e.domains[c.get_id()] = dom
        else:
            conds = [z3.And(z3.ULE(c, bv(core.MAXCP)), z3.Or(z3.ULT(c, bv(0xD800)), z3.UGT(c, bv(0xDFFF)))) for c in cs]
        if conds:
            e.assume(z3.And(*conds) if len(conds) > 1 else conds[0])

        def conc(m):
            return "".join(chr(_mval(m, c).as_long()) for c in cs)
        self._reg(name, conc)
        if not cs:
            return ""
        return mk(tuple(cs)) if alphabet is None or len(alphabet) > 1 else alphabet * ln

    # -- conditions ----------------------------------------------------------------
    def assume(self, cond):
        core.ENGINE.assume(as_cond(cond))

    def check(self, cond, msg):
        core.ENGINE.obligation(as_cond(cond), msg)

    def note(self, text):
        core.ENGINE.notes.append(text)

    def cover(self, label):
        self.covers.add(label)

    def known(self, fid, cond):
        """A recorded finding: give up the path where its trigger holds."""
        if fid not in self.known_ids:
            return
        if bool(cond):
            self.covers.add("known:" + fid)
            e = core.ENGINE
            e.known_hits.setdefault(fid, []) if hasattr(e, "known_hits") else None
            if hasattr(e, "known_hits") and len(e.known_hits[fid]) < 3:
                e.known_hits[fid].append(e.concretise_inputs(e.ensure_model()))
            raise PathAbort()

    def eq(self, a, b):
        """Deep equality of plain data without forking."""
        return _wrap(_deq(a, b))

    def all(self, conds):
        return sym_and(*list(conds))

    def any(self, conds):
        return sym_or(*list(conds))

    def neg(self, c):
        return sym_not(c)

    def iff(self, a, b):
        return _wrap(_iff(as_cond(a), as_cond(b)))

    def implies(self, a, b):
        return sym_or(sym_not(a), b)


def _iff(a, b):
    if isinstance(a, bool):
        return b if a else core.znot(b)
    if isinstance(b, bool):
        return a if b else core.znot(a)
    return a == b


def _wrap(c):
    return core.wrap_bool(c)


def _deq(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return core.zand([_deq(x, y) for x, y in zip(a, b)])
    r = a == b
    return as_cond(r)


class PlainSession(Base):
    symbolic = False

    def __init__(self, loader, inputs, tier="quick"):
        super().__init__(loader, tier)
        self.inputs = inputs
        self.covers = set()
        self.notes = []

    def _get(self, name):
        if name not in self.inputs:
            raise Unsupported(f"replay needs input {name!r} which the counterexample does not set")
        return self.inputs[name]

    def bool(self, name):
        return self._get(name)
    flag = bool

    def int(self, name, lo, hi):
        return self._get(name)

    def pick(self, name, n):
        v = self._get(name)
        if not 0 <= v < n:
            raise AssumeFailed()
        return v

    def choice(self, name, options):
        options = list(options)
        return options[self.pick(name, len(options))]

    def str(self, name, lo, hi, alphabet=None, full=False):
        return self._get(name)

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, cond, msg):
        if not cond:
            raise CheckFailed(msg)

    def note(self, text):
        self.notes.append(text)

    def cover(self, label):
        self.covers.add(label)

    def known(self, fid, cond):
        return

    def eq(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        return a == b

    def all(self, conds):
        return all(list(conds))

    def any(self, conds):
        return any(list(conds))

    def neg(self, c):
        return not c

    def iff(self, a, b):
        return bool(a) == bool(b)

    def implies(self, a, b):
        return (not a) or bool(b)
