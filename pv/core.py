"""Contracts over the extracted code: building code terms, sampling, and obligations."""
import hashlib
import random
import mpmath
from mpmath import mpf
from . import ir
from .ir import *
from .crate import Crate, LostAnchor
from .symex import Exec, V, ListV, SeqV, TupV, StructV, CloV, FnV, NatV, Unsupported, INT_RANGE, MutRef
from .num import evaluate, close

MATH = "math::"
# functions of the numerical library that every model calls: replaced by their contract symbol at call sites
MATH_BOUNDARY = {"math::inverse_newton_raphson_powered", "math::inverse_newton_raphson", "math::inverse_langevin", "math::integrate_1d",
                 "math::integrate_1d_grid", "math::integrate_2d", "math::lambert_w", "math::bessel_i", "math::erf", "math::erfc", "math::erfcx",
                 "math::approximate_inverse_langevin"}


def term_of(v, ex, st):
    """IR argument for a call node"""
    v = ex.rv(v, st)
    if isinstance(v, V):
        return v.e
    if isinstance(v, (CloV, FnV, NatV)):
        n = None
        if isinstance(v, CloV):
            n = len(v.ps)
        elif isinstance(v, FnV):
            n = len(v.fn.params)
        else:
            return None
        vs = [fresh("u") for _ in range(n)]
        s2 = st.copy()
        r = ex.call_value(v, [V(x, "f64") for x in vs], s2, None)
        r = ex.rv(r, s2)
        if not isinstance(r, V):
            return None
        return lam(vs, r.e)
    return None


def opaque(ex, f, args, st, name=None):
    ts = []
    for a in args:
        t = term_of(a, ex, st)
        if t is None:
            return None
        ts.append(t)
    return V(call(name or f.path, ts), "f64")


OBLS = []      # integer, index and panic obligations met since the last clear
USED = {}      # functions read (inlined) since the last clear


class Ctx:
    def __init__(self, repo="/repo"):
        self.crate = Crate(repo)
        self.used = {}      # function path -> times executed
        self.obls = []      # safety obligations met: (fn path, Obl)
        self.cache = {}
        self.constants = {}
        from .symex import OPAQUE_CONSTS
        from . import num
        for k, n in OPAQUE_CONSTS.items():
            try:
                m, c = k.rsplit("::", 1)
                mod = self.crate.modules[m]
                v = Exec(self.crate, opaque_consts=False).const_value(mod, mod.consts[c])
                self.constants[n] = num.evaluate(v.e, {})
            except Exception:
                self.constants[n] = None
            if self.constants[n] is not None:
                num.CONSTS[n] = self.constants[n]

    def fn(self, path):
        return self.crate.fn(path)

    def has(self, path):
        try:
            self.crate.fn(path)
            return True
        except LostAnchor:
            return False

    def code(self, path, args, opq=(), handlers=None, math=True, ranges=None):
        """value of the real function on argument expressions; functions in opq (paths) stay symbols"""
        f = self.crate.fn(path)
        opq = frozenset(opq)

        def boundary(g):
            if handlers and g.path in handlers:
                return handlers[g.path]
            if g is not f and (g.path in opq or (math and g.path in MATH_BOUNDARY)):
                return lambda ex, g, a, st: opaque(ex, g, a, st)
            return None
        ex = Exec(self.crate, boundary)
        ex.ranges = ranges
        vs = []
        if len(f.params) != len(args):
            raise LostAnchor("%s takes %d arguments" % (path, len(f.params)))
        for p, a in zip(f.params, args):
            if isinstance(a, E):
                ty = p["ty"].replace("&", "").replace("mut ", "").strip()
                a = V(a, "f64" if a.sort == "R" else ty)
            vs.append(a)
        r = ex.run(f, vs)
        for k, n in ex.inlined.items():
            USED[k] = USED.get(k, 0) + n
        USED[f.path] = USED.get(f.path, 0) + 1
        self.last = ex
        OBLS.extend(ex.obls)
        if isinstance(r, V):
            return r.e
        return r

    def args_of(self, path, rename=None):
        """fresh symbolic arguments named after the parameters"""
        f = self.crate.fn(path)
        out = []
        for p, n in zip(f.params, f.param_names()):
            ty = p["ty"].replace("&", "").strip()
            if ty == "f64":
                out.append(var(n))
            elif ty in INT_RANGE:
                out.append(var(n, "Z"))
            else:
                raise Unsupported("parameter %s: %s" % (n, ty))
        return out
