"""Exact intervals of real formulas (rational operations, monotone functions of their sign) for reading code under assumed input ranges.

A condition decided here is recorded, and becomes a conjunct of the generated theorem."""
from fractions import Fraction
from .ir import *

INF = float("inf")


class Iv:
    """interval with end points that may be open"""
    __slots__ = ("lo", "lop", "hi", "hop")

    def __init__(self, lo, hi, lop=False, hop=False):
        self.lo, self.hi, self.lop, self.hop = lo, hi, lop, hop


def _prod(p, q):
    (a, ao), (b, bo) = p, q
    if (a == 0 and not ao) or (b == 0 and not bo):
        return 0, False
    if a in (INF, -INF) or b in (INF, -INF):
        if a == 0 or b == 0:
            return 0, True
        return (INF if (a > 0) == (b > 0) else -INF), True
    return a * b, ao or bo


def _span(cs):
    lo = min(c for c, _ in cs)
    hi = max(c for c, _ in cs)
    return Iv(lo, hi, all(o for c, o in cs if c == lo), all(o for c, o in cs if c == hi))


class Ranges:
    def __init__(self, ivs):
        """{variable name: Iv}"""
        self.ivs = ivs
        self.memo = {}
        self.used = []      # conditions decided true

    def iv(self, e):
        if e.id not in self.memo:
            self.memo[e.id] = self._iv(e)
        return self.memo[e.id]

    def _iv(self, e):
        o = e.op
        if o in ("const", "iconst"):
            return Iv(Fraction(e.x), Fraction(e.x))
        if o == "var":
            return self.ivs.get(e.x)
        if o in ("neg", "ineg"):
            a = self.iv(e.args[0])
            return a and Iv(-a.hi, -a.lo, a.hop, a.lop)
        if o in ("add", "iadd", "sub", "isub"):
            a, b = self.iv(e.args[0]), self.iv(e.args[1])
            if a is None or b is None:
                return None
            if o in ("sub", "isub"):
                b = Iv(-b.hi, -b.lo, b.hop, b.lop)
            return Iv(a.lo + b.lo, a.hi + b.hi, a.lop or b.lop, a.hop or b.hop)
        if o in ("mul", "imul"):
            a, b = self.iv(e.args[0]), self.iv(e.args[1])
            if a is None or b is None:
                return None
            return _span([_prod(p, q) for p in ((a.lo, a.lop), (a.hi, a.hop)) for q in ((b.lo, b.lop), (b.hi, b.hop))])
        if o == "div":
            a, b = self.iv(e.args[0]), self.iv(e.args[1])
            if a is None or b is None or not (b.lo > 0 or b.hi < 0 or (b.lo == 0 and b.lop) or (b.hi == 0 and b.hop)):
                return None
            if b.lo < 0:
                a, b = Iv(-a.hi, -a.lo, a.hop, a.lop), Iv(-b.hi, -b.lo, b.hop, b.lop)

            def inv(x, op):
                if x == 0:
                    return INF, True
                if x == INF:
                    return 0, True
                return 1 / x, op
            lo, hi = inv(b.hi, b.hop), inv(b.lo, b.lop)
            return _span([_prod(p, q) for p in ((a.lo, a.lop), (a.hi, a.hop)) for q in (lo, hi)])
        if o == "powi" and e.args[1].op == "iconst" and e.args[1].x > 0:
            a, n = self.iv(e.args[0]), e.args[1].x
            if a is None:
                return None
            if a.lo >= 0 or n % 2:
                return Iv(a.lo ** n if abs(a.lo) != INF else a.lo, a.hi ** n if abs(a.hi) != INF else a.hi, a.lop, a.hop)
            if a.hi <= 0:
                return Iv(a.hi ** n, a.lo ** n if a.lo != -INF else INF, a.hop, a.lop)
            return Iv(Fraction(0), max(a.lo ** n, a.hi ** n))
        if o == "fn" and len(e.args) == 1:
            a = self.iv(e.args[0])
            if e.x == "abs" and a is not None:
                if a.lo >= 0:
                    return a
                if a.hi <= 0:
                    return Iv(-a.hi, -a.lo, a.hop, a.lop)
            if e.x == "exp":
                if a is not None and a.lo >= 0:
                    return Iv(Fraction(1), INF, a.lo > 0 or a.lop, True)
                return Iv(Fraction(0), INF, True, True)
            if e.x in ("sqrt", "cosh"):
                return Iv(Fraction(0), INF, bool(a is not None and a.lo > 0) or e.x == "cosh", True)
        return None

    def cmp(self, a, b, strict):
        """True / False / None for a < b (strict) or a <= b"""
        x, y = self.iv(a), self.iv(b)
        if x is None or y is None:
            return None
        if x.hi < y.lo or (x.hi == y.lo and (x.hop or y.lop or not strict) and abs(x.hi) != INF):
            return True
        # a >= b, or a > b
        if y.hi < x.lo or (y.hi == x.lo and (y.hop or x.lop or strict) and abs(x.lo) != INF):
            return False
        return None

    def truth(self, c):
        if c.op == "bconst":
            return c.x
        if c.op in ("lt", "le"):
            return self.cmp(c.args[0], c.args[1], c.op == "lt")
        if c.op == "eq":
            a, b = c.args
            if a.sort == "B":
                return None
            if self.cmp(a, b, True) or self.cmp(b, a, True):
                return False
            x, y = self.iv(a), self.iv(b)
            if x is not None and y is not None and x.lo == x.hi == y.lo == y.hi:
                return True
            return None
        if c.op == "not":
            t = self.truth(c.args[0])
            return None if t is None else not t
        if c.op in ("and", "or"):
            a, b = self.truth(c.args[0]), self.truth(c.args[1])
            if c.op == "and":
                return False if a is False or b is False else (True if a and b else None)
            return True if a or b else (False if a is False and b is False else None)
        return None

    def known(self, c):
        """c decided where the ranges decide it"""
        if c.op == "bconst":
            return c
        t = self.truth(c)
        if t is None:
            return c
        d = c if t else not_(c)
        if d not in self.used:
            self.used.append(d)
        return bconst(t)

    def whole(self, e):
        """the integer n with n <= e < n + 1, or None"""
        a = self.iv(e)
        if a is None or abs(a.lo) == INF or abs(a.hi) == INF:
            return None
        n = a.lo.numerator // a.lo.denominator
        if a.hi < n + 1 or (a.hi == n + 1 and a.hop):
            for d in (le(const(n), e), lt(e, const(n + 1))):
                if d not in self.used and d.op != "bconst":
                    self.used.append(d)
            return n
        return None
