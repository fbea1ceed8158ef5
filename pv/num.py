"""Numeric reading of expression graphs (multi-precision), used for fingerprints, counterexamples and
vacuity checks.  It never decides that an obligation holds: that is the Lean kernel's job."""
import hashlib
import mpmath
from mpmath import mp, mpf
from .ir import BINDERS

mp.dps = 40
_TIE = mpf(10) ** -34


class Undefined(Exception):
    pass


CONSTS = {"BOLTZMANN_CONSTANT": mpf("8.314462618"), "PLANCK_CONSTANT": mpf("0.06350779923502961")}

_MAXLOOP = 4000


def _fb(e, memo={}):
    r = memo.get(e.id)
    if r is None:
        if e.op == "bvar":
            r = frozenset((e.x,))
        else:
            s = set()
            for a in e.args[:-1] if e.op in BINDERS else e.args:
                s |= _fb(a)
            if e.op in BINDERS:
                s |= _fb(e.args[-1]) - {e.x[0]}
            r = frozenset(s)
        memo[e.id] = r
    return r


def _fr(name, i):
    h = hashlib.sha256(("%s/%d" % (name, i)).encode()).digest()
    return mpf(int.from_bytes(h[:6], "big")) / mpf(2 ** 48)


_coef = {}


def opaque_value(name, args):
    """a fixed smooth positive function standing for an uninterpreted symbol"""
    c = _coef.get((name, len(args)))
    if c is None:
        c = [_fr(name, i) for i in range(2 * len(args) + 2)]
        _coef[(name, len(args))] = c
    s = c[0] * 6
    for i, a in enumerate(args):
        a = mpf(a)
        # compress wide ranges so that the value stays informative
        t = mpmath.sign(a) * mpmath.log1p(abs(a))
        s += (0.4 + c[2 * i + 1]) * t + (c[2 * i + 2] - 0.5) * t * t / 7
    return (1 + mpmath.sin(s) / 3) * (mpf(1) / 2 + c[-1])


def _pos(x):
    if not (x > 0):
        raise Undefined("argument not positive")
    return x


def _ln(x):
    return mpmath.log(_pos(x))


def _sqrt(x):
    if x < 0:
        raise Undefined("sqrt of a negative number")
    return mpmath.sqrt(x)


def _unit(f):
    def g(x):
        if abs(x) > 1:
            raise Undefined("out of [-1,1]")
        return f(x)
    return g


def _atanh(x):
    if abs(x) >= 1:
        raise Undefined("atanh")
    return mpmath.atanh(x)


def _acosh(x):
    if x < 1:
        raise Undefined("acosh")
    return mpmath.acosh(x)


def _big(f):
    def g(x):
        if abs(x) > 20000:
            raise Undefined("overflow")
        return f(x)
    return g


def _exp(x):
    if x > 20000:
        raise Undefined("overflow")
    return mpf(0) if x < -10 ** 12 else mpmath.exp(x)


def _round(x):
    return mpmath.floor(abs(x) + mpf("0.5")) * mpmath.sign(x)


FN = {
    "exp": _exp, "ln": _ln, "sqrt": _sqrt, "sinh": _big(mpmath.sinh), "cosh": _big(mpmath.cosh), "tanh": mpmath.tanh,
    "sin": mpmath.sin, "cos": mpmath.cos, "tan": mpmath.tan, "asin": _unit(mpmath.asin), "acos": _unit(mpmath.acos), "atan": mpmath.atan,
    "asinh": mpmath.asinh, "acosh": _acosh, "atanh": _atanh, "abs": abs, "log10": lambda x: mpmath.log10(_pos(x)), "log2": lambda x: mpmath.log(_pos(x), 2),
    "ceil": mpmath.ceil, "floor": mpmath.floor, "round": _round, "trunc": lambda x: mpf(int(x)), "cbrt": lambda x: mpmath.sign(x) * mpmath.cbrt(abs(x)),
    "erf": mpmath.erf, "erfc": mpmath.erfc, "pi": lambda: mpmath.pi + 0,
    "bessel_i0": lambda x: mpmath.besseli(0, x), "bessel_i1": lambda x: mpmath.besseli(1, x), "lambert_w": lambda x: mpmath.re(mpmath.lambertw(x)),
    "erfcx": lambda x: erfcx(x),
}


def _sat(name):
    from .symex import INT_RANGE
    lo, hi = INT_RANGE[name[4:]]

    def f(x):
        t = int(x)
        return max(lo, min(hi, t))
    return f


class Ev:
    def __init__(self, env):
        self.env = env          # name -> mpf / int / bool
        self.b = {}             # binder index -> value
        self.memo = {}
        self.level = {}         # binder index -> memo of nodes that depend on it
        self.track = None       # node ids visited

    def ev(self, e):
        fb = _fb(e)
        memo = self.memo if not fb else self.level[max(fb, key=lambda i: self.depth[i])]
        r = memo.get(e.id)
        if r is None:
            r = self._ev(e)
            memo[e.id] = r
        return r

    depth = {}

    def bind(self, idx):
        self.depth = dict(self.depth)
        self.depth[idx] = len(self.depth)
        self.level = dict(self.level)

    def with_b(self, idx, v, f):
        od, ol, ob = self.depth, self.level, self.b.get(idx)
        self.depth = dict(od)
        self.depth[idx] = len(od) + (idx in od)
        self.level = dict(ol)
        self.level[idx] = {}
        self.b[idx] = v
        try:
            return f()
        finally:
            self.depth, self.level = od, ol
            if ob is None:
                del self.b[idx]
            else:
                self.b[idx] = ob

    def apply(self, lam, args):
        """value of a lambda on numbers"""
        if not args:
            return self.ev(lam)
        return self.with_b(lam.x[0], args[0], lambda: self.apply(lam.args[0], args[1:]))

    def _ev(self, e):
        o = e.op
        A = e.args
        ev = self.ev
        if o == "const":
            return mpf(e.x.numerator) / mpf(e.x.denominator)
        if o in ("iconst", "bconst"):
            return e.x
        if o == "var":
            if e.x in self.env:
                return self.env[e.x]
            if e.x in CONSTS:
                return CONSTS[e.x]
            raise Undefined("no value for " + e.x)
        if o == "bvar":
            return self.b[e.x]
        if o == "add":
            return ev(A[0]) + ev(A[1])
        if o == "sub":
            return ev(A[0]) - ev(A[1])
        if o == "neg":
            return -ev(A[0])
        if o == "mul":
            return ev(A[0]) * ev(A[1])
        if o == "div":
            d = ev(A[1])
            if d == 0:
                raise Undefined("division by zero")
            return ev(A[0]) / d
        if o == "powi":
            a, n = ev(A[0]), ev(A[1])
            if a == 0 and n < 0:
                raise Undefined("division by zero")
            if abs(n) > 100000:
                raise Undefined("overflow")
            return a ** n
        if o == "powf":
            a, n = ev(A[0]), ev(A[1])
            if a < 0:
                raise Undefined("negative base")
            if a == 0:
                return mpf(0)
            return mpmath.exp(n * mpmath.log(a))
        if o == "fn":
            if e.sort == "Z" and e.x.startswith("sat_"):
                return _sat(e.x)(ev(A[0]))
            f = FN.get(e.x)
            xs = [ev(a) for a in A]
            if f is None:
                return opaque_value("fn " + e.x, xs)
            return f(*xs)
        if o == "i2r":
            return mpf(ev(A[0]))
        if o == "iadd":
            return ev(A[0]) + ev(A[1])
        if o == "isub":
            return ev(A[0]) - ev(A[1])
        if o == "imul":
            return ev(A[0]) * ev(A[1])
        if o == "ineg":
            return -ev(A[0])
        if o in ("idiv", "imod"):
            a, b = ev(A[0]), ev(A[1])
            if b == 0:
                raise Undefined("integer division by zero")
            q = abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1)
            return q if o == "idiv" else a - q * b
        if o == "ipow":
            a, n = ev(A[0]), ev(A[1])
            if n < 0 or n > 10000:
                raise Undefined("integer power")
            return a ** n
        if o in ("lt", "le", "eq"):
            a, b = ev(A[0]), ev(A[1])
            if A[0].sort == "R" and a != b and abs(a - b) < abs(a) * _TIE:
                raise Undefined("too close to the branch boundary to be told apart from it")
            return a < b if o == "lt" else a <= b if o == "le" else a == b
        if o == "not":
            return not ev(A[0])
        if o == "and":
            return ev(A[0]) and ev(A[1])
        if o == "or":
            return ev(A[0]) or ev(A[1])
        if o == "ite":
            return ev(A[1]) if ev(A[0]) else ev(A[2])
        if o in ("sum", "prod"):
            n = ev(A[0])
            if n > _MAXLOOP:
                raise Undefined("too many terms")
            idx = e.x[0]
            r = mpf(0) if o == "sum" else (mpf(1) if e.sort == "R" else 1)
            for k in range(max(0, n)):
                t = self.with_b(idx, k, lambda: ev(A[1]))
                r = r + t if o == "sum" else r * t
            return r
        if o == "call":
            if e.x in self.env:
                return self.env[e.x]
            xs = []
            for a in A:
                if a.op == "lam":
                    m = _arity(a)
                    for j in range(2):
                        try:
                            xs.append(self.apply(a, [mpf("0.97") + mpf("0.41") * j + mpf("0.113") * i for i in range(m)]))
                        except (Undefined, ZeroDivisionError, OverflowError):
                            xs.append(mpf(j + 3))
                else:
                    v = ev(a)
                    xs.append(v)
            return opaque_value(e.x, xs)
        if o == "loop":
            return self.loop(e)
        if o == "lam":
            raise Undefined("bare function value")
        raise Undefined("op " + o)

    def loop(self, e):
        kind, m, i = e.x
        A = list(e.args)
        key = ("loop", kind, m) + tuple(a.id for a in A)
        fb = frozenset().union(*[_fb(a) for a in A])
        memo = self.memo if not fb else self.level[max(fb, key=lambda i: self.depth[i])]
        st = memo.get(key)
        if st is None:
            n = self.ev(A[0]) if kind == "for" else None
            r = A[1:] if kind == "for" else A
            s = [self.ev(a) for a in r[:m]]
            cond, steps = r[m], r[m + 1:]
            k = 0
            while (n is None or k < n) and self.apply(cond, [k] + s):
                s = [self.apply(f, [k] + s) for f in steps]
                k += 1
                if k > _MAXLOOP:
                    raise Undefined("loop does not finish")
            st = s
            memo[key] = st
        return st[i]


def _arity(l):
    n = 0
    while l.op == "lam":
        n += 1
        l = l.args[0]
    return n


def evaluate(e, env):
    """value of e, or None where it is undefined"""
    try:
        return Ev(env).ev(e)
    except (Undefined, ZeroDivisionError, ValueError, OverflowError, mpmath.libmp.NoConvergence, TypeError, IndexError):
        return None


def erfcx(x):
    if x < 60:
        return mpmath.erfc(x) * mpmath.exp(x * x)
    # asymptotic series, far below rounding for these x
    t, r = mpf(1), mpf(1)
    for k in range(1, 14):
        t *= -(2 * k - 1) / (2 * x * x)
        r += t
    return r / (x * mpmath.sqrt(mpmath.pi))


def close(a, b, tol=mpf(10) ** -20):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return abs(a - b) <= tol * max(abs(a), abs(b), mpf(10) ** -20)
