"""Symbolic execution core: path exploration driven by z3.

The code under test is executed by CPython after an AST instrumentation
(xform.py) that routes calls, membership tests, f-strings and container
displays through hooks (rt.py).  Values may be symbolic; every branch on a
symbolic condition is a decision recorded here.  A run follows the decisions
of a prefix and then the current solver model; afterwards the solver is asked,
for every new decision, whether the other direction is feasible, and for every
obligation (assertion) whether its negation is satisfiable together with the
path condition.  Exploration ends when no unexplored feasible decision is left,
so an "exhausted" result covers every value of the symbolic inputs within the
declared bounds.
"""

from __future__ import annotations

import time
import z3

CHAR_BITS = 21
CHAR_SORT = z3.BitVecSort(CHAR_BITS)
MAXCP = 0x10FFFF


class PathAbort(BaseException):
    """The current path is out of scope (assumption false) or finished."""


class Violation(BaseException):
    """The current model falsifies an obligation: stop this path."""


class Divergence(BaseException):
    """Re-execution of a prefix did not reproduce the recorded decisions."""


class Budget(BaseException):
    """Exploration budget exhausted."""


class SolverUnknown(BaseException):
    pass


class Unsupported(BaseException):
    """The code under test used something the stand-ins do not model."""


ENGINE = None  # the active engine, or None when running concretely


def engine():
    return ENGINE


class Engine:
    def __init__(self, *, max_paths=200000, max_seconds=600.0, solver_timeout_ms=20000):
        self.max_paths = max_paths
        self.max_seconds = max_seconds
        self.solver = z3.Solver()
        self.solver.set("timeout", solver_timeout_ms)
        self.queries = 0
        self.solver_s = 0.0
        self.unknowns = 0
        self.paths = 0
        self.aborted = 0
        self.decisions = 0
        self.obligations_discharged = 0
        self.trivial_obligations = 0
        self.functions = set()
        self.covers = {}
        self.violations = []
        self.known_hits = {}
        self.degraded = []
        self.exhausted = False
        self.samples = []
        self.path_witnesses = []
        self.witness_cap = 8
        self._ast_keep = []
        self._reset_path([], None)

    # -- per-path state -------------------------------------------------
    def _reset_path(self, prefix, model):
        self.prefix = prefix
        self.model = model
        self.path = []          # list of (kind, cond, taken): kind 'b' branch, 'a' assume, 'o' obligation
        self.known = {}         # cond id -> bool
        self.domains = {}       # char var id -> frozenset of code points
        self.inputs = {}        # name -> spec for concretisation
        self.fresh = 0
        self.path_covers = set()
        self.notes = []

    # -- solver ----------------------------------------------------------
    def _check(self, *assumptions):
        t = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.solver_s += time.perf_counter() - t
        self.queries += 1
        if r == z3.unknown:
            self.unknowns += 1
        return r

    def _pc(self):
        return [c if taken else z3.Not(c) for (_, c, taken) in self.path]

    def _solve_path_with(self, extra):
        """Model of the current path condition plus extra, or None."""
        self.solver.push()
        try:
            for lit in self._pc():
                self.solver.add(lit)
            self.solver.add(extra)
            r = self._check()
            if r == z3.sat:
                return self.solver.model()
            if r == z3.unknown:
                raise SolverUnknown()
            return None
        finally:
            self.solver.pop()

    def ensure_model(self):
        if self.model is None:
            m = self._solve_path_with(z3.BoolVal(True))
            if m is None:
                raise PathAbort()
            self.model = m
        return self.model

    def eval_bool(self, cond):
        v = self.ensure_model().eval(cond, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        v = z3.simplify(v)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        raise SolverUnknown()

    # -- decisions -------------------------------------------------------
    def branch(self, cond):
        """Decide a symbolic condition; fork."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        cid = cond.get_id()
        k = self.known.get(cid)
        if k is not None:
            return k[0]
        idx = len(self.path)
        if idx < len(self.prefix):
            kind, pcond, taken = self.prefix[idx]
            if kind != 'b' or not pcond.eq(cond):
                raise Divergence(f"decision {idx}: {kind} {pcond} vs {cond}")
        else:
            taken = self.eval_bool(cond)
        self.path.append(('b', cond, taken))
        self._learn(cond, taken)
        return taken

    def _learn(self, cond, taken):
        self.known[cond.get_id()] = (taken, cond)
        reg = CHARSETS.get(cond.get_id())
        if reg is not None:
            _, var, cset = reg
            dom = self.domains.get(var.get_id())
            if dom is not None:
                self.domains[var.get_id()] = (dom & cset) if taken else (dom - cset)

    def assume(self, cond):
        """Constrain inputs; abort the path if impossible."""
        if cond is True or (not isinstance(cond, bool) and z3.is_true(cond)):
            return
        if cond is False or z3.is_false(cond):
            raise PathAbort()
        k = self.known.get(cond.get_id())
        if k is not None:
            if k[0]:
                return
            raise PathAbort()
        idx = len(self.path)
        if idx < len(self.prefix):
            kind, pcond, taken = self.prefix[idx]
            if kind != 'a' or not pcond.eq(cond):
                raise Divergence(f"assume {idx}: {kind} {pcond} vs {cond}")
        else:
            if self.model is None or not self.eval_bool(cond):
                m = self._solve_path_with(cond)
                if m is None:
                    raise PathAbort()
                self.model = m
        self.path.append(('a', cond, True))
        self._learn(cond, True)

    def obligation(self, cond, msg):
        """Property assertion over the current symbolic state."""
        if cond is True or (not isinstance(cond, bool) and z3.is_true(cond)):
            self.trivial_obligations += 1
            return
        if cond is False or z3.is_false(cond):
            self.ensure_model()
            self._violate(msg, self.model)
            raise Violation()
        k = self.known.get(cond.get_id())
        if k is not None:
            if k[0]:
                self.trivial_obligations += 1
                return
            self._violate(msg, self.ensure_model())
            raise Violation()
        idx = len(self.path)
        if idx < len(self.prefix):
            kind, pcond, taken = self.prefix[idx]
            if kind != 'o' or not pcond.eq(cond):
                raise Divergence(f"obligation {idx}: {kind} {pcond} vs {cond}")
            self.path.append(('o', cond, True))
            self._learn(cond, True)
            return
        if not self.eval_bool(cond):
            self._violate(msg, self.model)
            raise Violation()
        self.path.append(('o', cond, True))
        self._oblmsg[idx] = msg
        self._learn(cond, True)

    def _violate(self, msg, model):
        self.violations.append({"message": msg, "inputs": self.concretise_inputs(model),
                                "notes": list(self.notes)})

    def concretise_inputs(self, model):
        return {n: spec.concrete(model) for n, spec in self.inputs.items()}

    # -- values ----------------------------------------------------------
    def concretise(self, expr):
        """Pick the model value of expr and fork on equality with it."""
        while True:
            known = self._known_value(expr)
            if known is not None:
                return known
            idx = len(self.path)
            # along a replayed prefix the decisions themselves tell the value
            if idx < len(self.prefix):
                kind, pcond, taken = self.prefix[idx]
                if kind == 'b' and z3.is_eq(pcond) and pcond.arg(0).eq(expr):
                    val = pcond.arg(1)
                elif kind == 'b' and z3.is_eq(pcond) and pcond.arg(1).eq(expr):
                    val = pcond.arg(0)
                else:
                    raise Divergence(f"concretise {idx}: {pcond} vs {expr}")
            else:
                val = self.ensure_model().eval(expr, model_completion=True)
            if self.branch(expr == val):
                self._values[expr.get_id()] = (val, expr)
                return val

    def _known_value(self, expr):
        if z3.is_int_value(expr) or z3.is_bv_value(expr):
            return expr
        v = self._values.get(expr.get_id())
        return v[0] if v else None

    # -- exploration -----------------------------------------------------
    def explore(self, fn, *, stop_at_violations=3):
        global ENGINE
        start = time.monotonic()
        work = [([], None)]
        prev = ENGINE
        ENGINE = self
        try:
            while work:
                if self.paths + self.aborted >= self.max_paths or time.monotonic() - start > self.max_seconds:
                    self.exhausted = False
                    return self
                prefix, model = work.pop()
                self._reset_path(prefix, model)
                self._values = {}
                self._oblmsg = {}
                status = 'ok'
                err = None
                try:
                    fn()
                except PathAbort:
                    status = 'abort'
                except Violation:
                    status = 'violation'
                except SolverUnknown:
                    status = 'unknown'
                except Unsupported as exc:
                    status, err = 'error', exc
                except (KeyboardInterrupt, Divergence, Budget, MemoryError):
                    raise
                except RecursionError as exc:
                    status, err = 'error', exc
                except Exception as exc:  # unexpected in code under test or engine
                    status, err = 'error', exc
                if status == 'error':
                    try:
                        inputs = self.concretise_inputs(self.ensure_model())
                    except (PathAbort, SolverUnknown):
                        inputs = None
                    import traceback
                    self.degraded.append({"inputs": inputs, "error": f"{type(err).__name__}: {err}"[:500] if not isinstance(err, RecursionError) else "RecursionError",
                                          "exc_type": type(err).__name__,
                                          "traceback": "".join(traceback.format_tb(err.__traceback__)[-6:])})
                if status == 'unknown':
                    self.degraded.append({"inputs": None, "error": "solver unknown", "exc_type": "SolverUnknown", "traceback": ""})
                if status == 'abort':
                    self.aborted += 1
                else:
                    self.paths += 1
                    if status == 'ok':
                        for c in self.path_covers:
                            self.covers[c] = self.covers.get(c, 0) + 1
                        self._witness()
                work.extend(self._expand())
                if len(self.violations) >= stop_at_violations:
                    self.exhausted = False
                    return self
            self.exhausted = True
            return self
        finally:
            ENGINE = prev

    def _witness(self):
        """Keep a few path models, spread over the exploration, for validation on real code."""
        n = self.paths
        if len(self.path_witnesses) < self.witness_cap or (n & (n - 1)) == 0:
            try:
                m = self.ensure_model()
            except (PathAbort, SolverUnknown):
                return
            self.path_witnesses.append({"inputs": self.concretise_inputs(m),
                                        "covers": sorted(self.path_covers)})

    def _expand(self):
        """Solver pass over the finished path: flips and obligations."""
        new = []
        s = self.solver
        path = self.path
        n0 = len(self.prefix)
        # nothing to do if no new flippable entries
        if len(path) <= n0:
            return new
        s.push()
        try:
            for (_, c, t) in path[:n0]:
                s.add(c if t else z3.Not(c))
            for i in range(n0, len(path)):
                kind, c, t = path[i]
                if kind == 'b':
                    self.decisions += 1
                    neg = z3.Not(c) if t else c
                    s.push()
                    s.add(neg)
                    r = self._check()
                    if r == z3.sat:
                        new.append((path[:i] + [('b', c, not t)], s.model()))
                    elif r == z3.unknown:
                        self.degraded.append({"inputs": None, "error": "solver unknown on branch", "exc_type": "SolverUnknown", "traceback": ""})
                    s.pop()
                elif kind == 'o':
                    s.push()
                    s.add(z3.Not(c))
                    r = self._check()
                    if r == z3.sat:
                        self._violate(self._oblmsg.get(i, "obligation"), s.model())
                    elif r == z3.unsat:
                        self.obligations_discharged += 1
                    else:
                        self.degraded.append({"inputs": None, "error": "solver unknown on obligation", "exc_type": "SolverUnknown", "traceback": ""})
                    s.pop()
                s.add(c if t else z3.Not(c))
        finally:
            s.pop()
        return new


# ---------------------------------------------------------------------------
# Character conditions
# ---------------------------------------------------------------------------
CHARSETS = {}   # cond id -> (cond (kept alive), var, frozenset)
_CHARSET_CACHE = {}
_BV = {}


def bv(n):
    v = _BV.get(n)
    if v is None:
        v = _BV[n] = z3.BitVecVal(n, CHAR_BITS)
    return v


_ALIVE = []


def char_in(c, cset):
    """Condition 'code point c is in the set cset' -> bool or z3 BoolRef."""
    if isinstance(c, int):
        return c in cset
    e = ENGINE
    dom = e.domains.get(c.get_id())
    if dom is not None:
        if not (dom & cset):
            return False
        if dom <= cset:
            return True
        cset = dom & cset
        if len(cset) * 2 > len(dom):
            pass
    key = (c.get_id(), cset)
    hit = _CHARSET_CACHE.get(key)
    if hit is not None:
        return hit
    cond = _set_formula(c, cset)
    _CHARSET_CACHE[key] = cond
    _ALIVE.append(c)
    if z3.is_const(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        CHARSETS[cond.get_id()] = (cond, c, cset)
    return cond


def _set_formula(c, cset):
    if len(cset) == 1:
        return c == bv(next(iter(cset)))
    # runs of consecutive code points become range tests
    vals = sorted(cset)
    parts = []
    i = 0
    while i < len(vals):
        j = i
        while j + 1 < len(vals) and vals[j + 1] == vals[j] + 1:
            j += 1
        if j - i >= 2:
            parts.append(z3.And(z3.UGE(c, bv(vals[i])), z3.ULE(c, bv(vals[j]))))
        else:
            parts.extend(c == bv(v) for v in vals[i:j + 1])
        i = j + 1
    return parts[0] if len(parts) == 1 else z3.Or(*parts)


def char_eq(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a == b
        return char_in(b, frozenset((a,)))
    if isinstance(b, int):
        return char_in(a, frozenset((b,)))
    if a.get_id() == b.get_id():
        return True
    e = ENGINE
    da = e.domains.get(a.get_id())
    db = e.domains.get(b.get_id())
    if da is not None and db is not None:
        if not (da & db):
            return False
        if len(da) == 1:
            return char_in(b, da)
        if len(db) == 1:
            return char_in(a, db)
    return a == b


def zand(conds):
    out = []
    for c in conds:
        if c is True:
            continue
        if c is False:
            return False
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def zor(conds):
    out = []
    for c in conds:
        if c is False:
            continue
        if c is True:
            return True
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def znot(c):
    if isinstance(c, bool):
        return not c
    return z3.Not(c)


def decide(cond):
    """bool or z3 -> bool, forking."""
    if isinstance(cond, bool):
        return cond
    return ENGINE.branch(cond)


def as_cond(x):
    """Python bool / SymBool / z3 -> bool or z3 BoolRef."""
    if isinstance(x, SymBool):
        return x.z
    if isinstance(x, (bool, z3.BoolRef)):
        return x
    return bool(x)


def wrap_bool(c):
    if isinstance(c, bool):
        return c
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return SymBool(c)


class Sym:
    """Marker base class of symbolic scalars."""
    __slots__ = ()


class SymBool(Sym):
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return ENGINE.branch(self.z)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return wrap_bool(self.z == o.z)
        if isinstance(o, bool):
            return SymBool(self.z) if o else wrap_bool(z3.Not(self.z))
        if isinstance(o, (int, SymInt)):
            return SymInt.of(self) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return wrap_bool(zand([self.z, as_cond(o)]))
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return wrap_bool(zor([self.z, as_cond(o)]))
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            c = as_cond(o)
            if isinstance(c, bool):
                return wrap_bool(z3.Not(self.z)) if c else self
            return wrap_bool(z3.Xor(self.z, c))
        return NotImplemented
    __rxor__ = __xor__

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __add__(self, o):
        return SymInt.of(self) + o
    __radd__ = __add__

    def __repr__(self):
        return repr(bool(self))


def sym_not(x):
    if isinstance(x, SymBool):
        return wrap_bool(z3.Not(x.z))
    return not x


def sym_and(*xs):
    return wrap_bool(zand([as_cond(x) for x in xs]))


def sym_or(*xs):
    return wrap_bool(zor([as_cond(x) for x in xs]))


class SymInt(Sym):
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    @staticmethod
    def of(x):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return SymInt(z3.If(x.z, z3.IntVal(1), z3.IntVal(0)))
        return SymInt(z3.IntVal(int(x)))

    @staticmethod
    def _z(o):
        if isinstance(o, SymInt):
            return o.z
        if isinstance(o, bool):
            return z3.IntVal(int(o))
        if isinstance(o, int):
            return z3.IntVal(o)
        if isinstance(o, SymBool):
            return SymInt.of(o).z
        return None

    def _bin(self, o, f):
        z = SymInt._z(o)
        if z is None:
            return NotImplemented
        return mkint(f(self.z, z))

    def _cmp(self, o, f):
        z = SymInt._z(o)
        if z is None:
            if isinstance(o, float):
                return f_float(self, o, f)
            return NotImplemented
        return wrap_bool(z3.simplify(f(self.z, z)))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)

    def __neg__(self): return mkint(-self.z)
    def __pos__(self): return self
    def __abs__(self): return mkint(z3.If(self.z >= 0, self.z, -self.z))

    def __floordiv__(self, o): return int(self) // (int(o))
    def __mod__(self, o): return int(self) % (int(o))

    def __eq__(self, o):
        if o is self:
            return True
        z = SymInt._z(o)
        if z is None:
            return NotImplemented
        return wrap_bool(z3.simplify(self.z == z))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return decide(as_cond(self != 0))

    def __int__(self):
        return ENGINE.concretise(self.z).as_long()
    __index__ = __int__

    def __float__(self):
        return float(int(self))

    def __hash__(self):
        return hash(int(self))

    def __repr__(self):
        return repr(int(self))


def f_float(a, o, f):
    if o == int(o):
        return wrap_bool(z3.simplify(f(a.z, z3.IntVal(int(o)))))
    return f(int(a), o)


def mkint(z):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SymInt(z)
