"""Regular expression matching of symbolic subjects with concrete patterns.

Backtracking matcher over the parse tree of CPython's own regex parser;
every character test that involves a symbolic code point forks.
"""

from __future__ import annotations

import re
import re._constants as C
import re._parser as P

import z3

from . import core, strs
from .core import char_in, char_eq, decide, znot, zor
from .strs import SymStr, chars_of, mk

_TREES = {}


def tree(pat):
    key = (pat.pattern, pat.flags)
    t = _TREES.get(key)
    if t is None:
        t = _TREES[key] = P.parse(pat.pattern, pat.flags & ~re.DEBUG)
    return t


class SymMatch:
    def __init__(self, pat, subject, start, end, groups):
        self.re = pat
        self.string = subject
        self._s, self._e = start, end
        self._g = groups

    def _span(self, g):
        if isinstance(g, str):
            g = self.re.groupindex[g]
        if g == 0:
            return (self._s, self._e)
        return self._g.get(g, (-1, -1))

    def group(self, *gs):
        if not gs:
            gs = (0,)
        out = []
        for g in gs:
            s, e = self._span(g)
            out.append(None if s < 0 else self.string[s:e])
        return out[0] if len(out) == 1 else tuple(out)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(default if self._span(i)[0] < 0 else self.group(i) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: (default if self._span(i)[0] < 0 else self.group(i)) for n, i in self.re.groupindex.items()}

    def start(self, g=0):
        return self._span(g)[0]

    def end(self, g=0):
        return self._span(g)[1]

    def span(self, g=0):
        return self._span(g)

    @property
    def lastindex(self):
        idx = [i for i in self._g]
        return max(idx) if idx else None

    def __bool__(self):
        return True


_CAT = {}


def _category(cat, flags):
    key = (cat, flags & re.ASCII)
    r = _CAT.get(key)
    if r is None:
        pats = {C.CATEGORY_DIGIT: r"\d", C.CATEGORY_SPACE: r"\s", C.CATEGORY_WORD: r"\w"}
        rx = re.compile(pats[cat], flags & re.ASCII)
        r = _CAT[key] = frozenset(i for i in range(0x110000) if rx.match(chr(i)))
    return r


_NEGCAT = {C.CATEGORY_NOT_DIGIT: C.CATEGORY_DIGIT, C.CATEGORY_NOT_SPACE: C.CATEGORY_SPACE,
           C.CATEGORY_NOT_WORD: C.CATEGORY_WORD}


def _cat_cond(ch, cat, flags):
    neg = cat in _NEGCAT
    base = _NEGCAT.get(cat, cat)
    if isinstance(ch, int):
        r = ch in _category(base, flags)
        return (not r) if neg else r
    dom = core.ENGINE.domains.get(ch.get_id())
    cset = _category(base, flags)
    if dom is not None:
        r = char_in(ch, dom & cset)
    else:
        if decide(z3.ULT(ch, core.bv(128))):
            r = char_in(ch, frozenset(c for c in cset if c < 128))
        else:
            v = core.ENGINE.concretise(ch).as_long()
            r = v in cset
    return znot(r) if neg else r


def _variants(cp, flags):
    if flags & re.IGNORECASE:
        c = chr(cp)
        return frozenset(ord(x) for x in {c, c.lower(), c.upper()} if len(x) == 1)
    return frozenset((cp,))


def _in_cond(ch, items, flags):
    neg = False
    conds = []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            conds.append(char_in(ch, _variants(av, flags)) if not isinstance(ch, int) else ch in _variants(av, flags))
        elif op is C.RANGE:
            lo, hi = av
            if flags & re.IGNORECASE:
                s = frozenset().union(*[_variants(x, flags) for x in range(lo, min(hi, 0x2FF) + 1)])
                conds.append(char_in(ch, s) if not isinstance(ch, int) else (ch in s or lo <= ch <= hi))
            elif isinstance(ch, int):
                conds.append(lo <= ch <= hi)
            elif hi - lo < 1024 or core.ENGINE.domains.get(ch.get_id()) is not None:
                dom = core.ENGINE.domains.get(ch.get_id())
                s = frozenset(d for d in dom if lo <= d <= hi) if dom is not None else frozenset(range(lo, hi + 1))
                conds.append(char_in(ch, s) if s else False)
            else:
                conds.append(z3.And(z3.UGE(ch, core.bv(lo)), z3.ULE(ch, core.bv(hi))))
        elif op is C.CATEGORY:
            conds.append(_cat_cond(ch, av, flags))
        else:
            raise NotImplementedError(f"regex set item {op}")
    r = zor(conds)
    return znot(r) if neg else r


def _eval(prog, i, s, pos, flags, groups, k):
    """Match prog[i:] at pos, then continuation k(pos, groups)."""
    if i == len(prog):
        return k(pos, groups)
    op, av = prog[i]
    nxt = lambda p, g: _eval(prog, i + 1, s, p, flags, g, k)
    n = len(s)
    if op is C.LITERAL or op is C.NOT_LITERAL:
        if pos >= n:
            return None
        v = _variants(av, flags)
        c = (s[pos] in v) if isinstance(s[pos], int) else char_in(s[pos], v)
        if op is C.NOT_LITERAL:
            c = znot(c)
        return nxt(pos + 1, groups) if decide(c) else None
    if op is C.ANY:
        if pos >= n:
            return None
        if not (flags & re.DOTALL) and decide(char_eq(s[pos], 10)):
            return None
        return nxt(pos + 1, groups)
    if op is C.IN:
        if pos >= n:
            return None
        return nxt(pos + 1, groups) if decide(_in_cond(s[pos], av, flags)) else None
    if op is C.BRANCH:
        for alt in av[1]:
            r = _eval(list(alt), 0, s, pos, flags, groups, nxt)
            if r is not None:
                return r
        return None
    if op is C.SUBPATTERN:
        g, add, rem, p = av
        f2 = (flags | add) & ~rem
        start = pos

        def after(p2, gr):
            if g is not None:
                gr = dict(gr)
                gr[g] = (start, p2)
            return nxt(p2, gr)
        return _eval(list(p), 0, s, pos, f2, groups, after)
    if op is C.MAX_REPEAT or op is C.MIN_REPEAT or op is C.POSSESSIVE_REPEAT:
        lo, hi, p = av
        p = list(p)
        greedy = op is not C.MIN_REPEAT

        def rep(cnt, p0, gr):
            def more():
                if hi is not C.MAXREPEAT and cnt >= hi:
                    return None

                def cont(p2, g2):
                    if p2 == p0 and cnt >= lo:
                        return None
                    return rep(cnt + 1, p2, g2)
                return _eval(p, 0, s, p0, flags, gr, cont)
            if cnt < lo:
                return more()
            if greedy:
                r = more()
                return r if r is not None else nxt(p0, gr)
            r = nxt(p0, gr)
            return r if r is not None else more()
        if op is C.POSSESSIVE_REPEAT:
            end = rep_atomic(p, lo, hi, s, pos, flags, groups)
            return None if end is None else nxt(*end)
        return rep(0, pos, groups)
    if op is C.ATOMIC_GROUP:
        r = _eval(list(av), 0, s, pos, flags, groups, lambda p2, g2: (p2, g2))
        return None if r is None else nxt(*r)
    if op is C.AT:
        return nxt(pos, groups) if _at(av, s, pos, flags) else None
    if op is C.ASSERT or op is C.ASSERT_NOT:
        d, p = av
        p = list(p)
        if d < 0:
            w = P.SubPattern(P.State(), p).getwidth()
            ok = None
            for width in range(w[0], min(w[1], pos) + 1):
                ok = _eval(p, 0, s, pos - width, flags, groups, lambda p2, g2: (p2, g2) if p2 == pos else None)
                if ok is not None:
                    break
        else:
            ok = _eval(p, 0, s, pos, flags, groups, lambda p2, g2: (p2, g2))
        if op is C.ASSERT:
            return None if ok is None else nxt(pos, ok[1])
        return nxt(pos, groups) if ok is None else None
    if op is C.GROUPREF:
        a, b = groups.get(av, (-1, -1))
        if a < 0:
            return None
        ln = b - a
        if pos + ln > n:
            return None
        if decide(core.zand([char_eq(s[a + j], s[pos + j]) for j in range(ln)])):
            return nxt(pos + ln, groups)
        return None
    raise NotImplementedError(f"regex op {op}")


def rep_atomic(p, lo, hi, s, pos, flags, groups):
    cnt = 0
    cur = (pos, groups)
    while hi is C.MAXREPEAT or cnt < hi:
        r = _eval(p, 0, s, cur[0], flags, cur[1], lambda p2, g2: (p2, g2))
        if r is None or (r[0] == cur[0] and cnt >= lo):
            break
        cur = r
        cnt += 1
    return cur if cnt >= lo else None


def _at(av, s, pos, flags):
    n = len(s)
    if av is C.AT_BEGINNING:
        return pos == 0 or bool(flags & re.MULTILINE and decide(char_eq(s[pos - 1], 10)))
    if av is C.AT_BEGINNING_STRING:
        return pos == 0
    if av is C.AT_END:
        if pos == n:
            return True
        if pos == n - 1 and decide(char_eq(s[pos], 10)):
            return True
        return bool(flags & re.MULTILINE and decide(char_eq(s[pos], 10)))
    if av is C.AT_END_STRING:
        return pos == n
    if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
        a = pos > 0 and decide(_cat_cond(s[pos - 1], C.CATEGORY_WORD, flags))
        b = pos < n and decide(_cat_cond(s[pos], C.CATEGORY_WORD, flags))
        return (a != b) if av is C.AT_BOUNDARY else (a == b)
    raise NotImplementedError(f"regex at {av}")


def _run(pat, subject, pos, full=False, endpos=None):
    s = chars_of(subject)
    if endpos is not None:
        s = s[:endpos]
    t = list(tree(pat))
    k = (lambda p, g: (p, g) if p == len(s) else None) if full else (lambda p, g: (p, g))
    r = _eval(t, 0, s, pos, pat.flags, {}, k)
    if r is None:
        return None
    return SymMatch(pat, subject, pos, r[0], r[1])


def _search(pat, subject, pos=0):
    for i in range(pos, len(subject) + 1):
        m = _run(pat, subject, i)
        if m is not None:
            return m
    return None


def _iter(pat, subject):
    pos = 0
    last_empty_block = -1
    n = len(subject)
    while pos <= n:
        m = None
        for i in range(pos, n + 1):
            m = _run(pat, subject, i)
            if m is not None and m.end() == m.start() and m.start() == last_empty_block:
                m = None
                continue
            if m is not None:
                break
        if m is None:
            return
        yield m
        last_empty_block = m.end()
        pos = m.end() if m.end() > m.start() else m.end()
        if m.end() == m.start():
            pos = m.end() + 1
            # sre retries a non-empty match at the same position first; patterns used here never need it


def _expand(repl, m):
    if callable(repl):
        return repl(m)
    if isinstance(repl, SymStr):
        repl = repl.concrete()
    if "\\" not in repl:
        return repl
    parts = P.parse_template(repl, m.re)
    out = []
    for x in parts:
        if isinstance(x, int):
            out.append(m.group(x) or "")
        else:
            out.append(x)
    return strs.join("", out)


def method(pat, name):
    if name == "match":
        return lambda s, pos=0, *a: _run(pat, s, pos)
    if name == "fullmatch":
        return lambda s, pos=0, *a: _run(pat, s, pos, full=True)
    if name == "search":
        return lambda s, pos=0, *a: _search(pat, s, pos)
    if name == "finditer":
        return lambda s, *a: _iter(pat, s)
    if name == "findall":
        def findall(s, *a):
            out = []
            for m in _iter(pat, s):
                g = m.groups("")
                out.append(m.group() if not g else (g[0] if len(g) == 1 else g))
            return out
        return findall
    if name in ("sub", "subn"):
        def sub(repl, string, count=0):
            out = []
            last = 0
            n = 0
            for m in _iter(pat, string):
                if count and n >= count:
                    break
                out.append(string[last:m.start()])
                out.append(_expand(repl, m))
                last = m.end()
                n += 1
            out.append(string[last:])
            r = strs.join("", out)
            return r if name == "sub" else (r, n)
        return sub
    if name == "split":
        def split(string, maxsplit=0):
            out = []
            last = 0
            n = 0
            for m in _iter(pat, string):
                if maxsplit and n >= maxsplit:
                    break
                out.append(string[last:m.start()])
                out.extend(m.groups())
                last = m.end()
                n += 1
            out.append(string[last:])
            return out
        return split
    raise NotImplementedError(name)
