"""Derivative contracts: `HasDerivAt (fun x => Φ x) (G x) x` for extracted formulas Φ and G.

The derivative D of Φ is computed on the graph together with a Lean proof term (part A); D = G is an equality
obligation like any other (part B, pv.lean); the two compose to the statement (part C).  Calls of root finders are
replaced by functions of x that satisfy the equation the caller hands to the root finder (its contract)."""
from .ir import *
from mpmath import mpf
from . import lean
from .symex import Unsupported
from .sample import requires_of

SOLVERS = {"math::inverse_newton_raphson", "math::inverse_newton_raphson_powered", "math::inverse_langevin", "math::lambert_w"}


def eq_(a, b):
    """equation that keeps its orientation"""
    return mk("eq", (a, b), None, "B")


def ne_(a, b):
    return mk("not", (eq_(a, b),), None, "B")


class Sol:
    def __init__(self, i, kind, lhs, rhs, x):
        self.i, self.kind, self.lhs, self.rhs = i, kind, lhs, rhs
        self.f = call("sol§%d" % i, [x])           # value of the root as a function of x
        self.df = var("root%d_slope" % i)            # its derivative


class Prep:
    """replaces root-finder calls that depend on x by function symbols"""

    def __init__(self, x):
        self.x = x
        self.sols = []
        self.keys = {}
        self.memo = {}

    def has(self, e):
        return self.x in free_vars(e)

    def go(self, e):
        r = self.memo.get(e.id)
        if r is None:
            r = self._go(e)
            self.memo[e.id] = r
        return r

    def _go(self, e):
        if not e.args or not self.has(e):
            return e
        if e.op == "call" and e.x in SOLVERS:
            y = self.go(e.args[0])
            key = (e.x.replace("_powered", ""), y.id, e.args[1].id if len(e.args) > 1 else 0)
            s = self.keys.get(key)
            if s is None:
                i = len(self.sols) + 1
                s = Sol(i, e.x, None, y, self.x)
                self.keys[key] = s
                self.sols.append(s)
                h = s.f
                if e.x.endswith("lambert_w"):
                    s.lhs = mul(h, fn("exp", h))
                elif e.x.endswith("inverse_langevin"):
                    s.lhs = sub(div(ONE, fn("tanh", h)), div(ONE, h))
                else:
                    l = e.args[1]
                    if l.op != "lam":
                        raise Unsupported("root finder's function")
                    s.lhs = self.go(inst(l.args[0], l.x[0], h))
            return s.f
        if e.op in BINDERS:
            v, body = open_binder(e)
            nb = self.go(body)
            na = [self.go(a) for a in e.args[:-1]]
            if e.op == "sum":
                return bsum(na[0], v, nb)
            if e.op == "prod":
                return bprod(na[0], v, nb)
            return lam([v], nb)
        return rebuild(e, [self.go(a) for a in e.args])


class Raw(lean.Theorem):
    """prints graphs without naming operations; shares the symbol names of a theorem"""

    def __init__(self, th):
        lean.Theorem.__init__(self, th.name, [], [])
        self.short, self.opaque = th.short, th.opaque
        self.d = 0
        self.tm = {}

    def t(self, e):
        key = (e.id, self.d)
        r = self.tm.get(key)
        if r is None:
            r = self.t0(e)
            self.tm[key] = r
        return r

    def t0(self, e):
        if lean.is_ring(e) or e.op in ("lt", "le", "eq", "not", "and", "or", "bconst"):
            return lean.Theorem.t(self, e)
        return "(" + self.defn(self.at(e)) + ")"

    def at(self, e):
        d0 = self.d
        if e.op in ("sum", "prod"):
            k = self.kvar(self.d, "N")
            b = inst(e.args[1], e.x[0], k)
            args, x = (e.args[0], ("lam", [k], b)), None
        elif e.op in ("call", "loop"):
            args = []
            for b in e.args:
                if b.op == "lam":
                    ks, d = [], self.d
                    while b.op == "lam":
                        k = self.kvar(d, b.x[1])
                        ks.append(k)
                        b = inst(b.args[0], b.x[0], k)
                        d += 1
                    args.append(("lam", ks, b))
                else:
                    args.append(b)
            args, x = tuple(args), e.x
        else:
            args, x = tuple(e.args), e.x
        return lean.At("", [], e.op, x, args, e.sort, e)

    def targ(self, b, norm=False):
        if isinstance(b, tuple):
            d0 = self.d
            self.d = d0 + len(b[1])
            s = "(fun %s => %s)" % (" ".join("(%s : %s)" % (self.v(k), lean.TY[k.sort]) for k in b[1]), self.t(b[2]))
            self.d = d0
            return s
        return self.t(b)


SIMP = "(by first | (simp only [one_mul, mul_one, zero_add, add_zero, sub_zero, zero_sub, zero_mul, mul_zero, pow_one, pow_zero, div_one, neg_neg, neg_zero]; done) | (norm_num; done) | ring1)"


class Diff:
    def __init__(self, raw, x, reqs, contracts):
        self.raw, self.x = raw, x
        self.reqs = list(reqs)          # IR requirements; extended where definedness needs it
        self.names = {}                 # IR requirement -> hypothesis name
        for q in self.reqs:
            self.name_of(q)
        self.contracts = contracts      # call name -> handler(self, e, a, A) giving (D, proof); also records hypotheses
        self.hyps = {}                  # name -> text of assumed contracts
        self.haves = []
        self.points = {}
        self.memo = {}
        self.posm = {}
        self.n = 0
        self.loc = 0                    # inside a binder: no new requirements

    def name_of(self, q):
        if q not in self.names:
            self.names[q] = "req%d" % len(self.names)
            if q not in self.reqs:
                self.reqs.append(q)
        return self.names[q]

    def t(self, e):
        return self.raw.t(e)

    def has(self, e):
        return self.x in free_vars(e)

    # --- signs ---------------------------------------------------------------------------
    def pos(self, e):
        """proof term of 0 < e, or None"""
        r = self.posm.get(e.id, 0)
        if r == 0:
            r = self.pos0(e)
            self.posm[e.id] = r
        return r

    def nonneg(self, e):
        p = self.pos(e)
        if p:
            return "(%s).le" % p
        if e.op == "powi" and e.args[1].op == "iconst" and e.args[1].x > 0 and e.args[1].x % 2 == 0:
            return "(Even.pow_nonneg (by decide) _)"
        if e.op in ("const",) and e.x == 0:
            return "le_rfl"
        if e.op == "i2r" and e.args[0].op == "var" and self.raw.is_kvar(e.args[0]):
            return "(PV.idx_nonneg _)"
        if e.op == "add":
            a, b = self.nonneg(e.args[0]), self.nonneg(e.args[1])
            return a and b and "(add_nonneg %s %s)" % (a, b)
        if e.op in ("mul", "div"):
            a, b = self.nonneg(e.args[0]), self.nonneg(e.args[1])
            return a and b and "(%s_nonneg %s %s)" % (e.op, a, b)
        if e.op == "fn" and e.x == "sqrt":
            return "(Real.sqrt_nonneg _)"
        return None

    def pos0(self, e):
        o, A = e.op, e.args
        q = lt(ZERO if e.sort == "R" else iconst(0), e)
        if q in self.names:
            return self.names[q]
        if o == "const":
            return "(by norm_num : (0:ℝ) < %s)" % self.t(e) if e.x > 0 else None
        if o == "var":
            return None
        if o == "i2r":
            for c in (iconst(1),):
                if le(c, A[0]) in self.names:
                    return "(by have hq := %s; have : (1:ℝ) ≤ %s := (by exact_mod_cast hq); linarith : (0:ℝ) < %s)" % (self.names[le(c, A[0])], self.t(e), self.t(e))
            return None
        if o == "add":
            a, b = self.pos(A[0]), self.pos(A[1])
            if a and b:
                return "(add_pos %s %s)" % (a, b)
            if a:
                n = self.nonneg(A[1])
                return n and "(add_pos_of_pos_of_nonneg %s %s)" % (a, n)
            if b:
                n = self.nonneg(A[0])
                return n and "(add_pos_of_nonneg_of_pos %s %s)" % (n, b)
            return None
        if o in ("mul", "div"):
            a, b = self.pos(A[0]), self.pos(A[1])
            return a and b and "(%s_pos %s %s)" % (o, a, b)
        if o == "powi" and A[1].op == "iconst":
            a = self.pos(A[0])
            n = A[1].x
            if a is None:
                return None
            if n >= 0:
                return "(pow_pos %s %d)" % (a, n)
            return "(inv_pos.mpr %s)" % (a if n == -1 else "(pow_pos %s %d)" % (a, -n))
        if o == "sum" and A[0].op == "iconst" and A[0].x > 0:
            k, body = self.open(e)
            p = self.pos(body)
            self.raw.d -= 1
            return p and "(PV.sum_pos (by norm_num) (fun %s h%s _ => %s))" % (self.raw.v(k), self.raw.v(k), p)
        if o == "sub":
            a, b = A
            if a.op == "powf" and a.args[0].op == "const" and a.args[1].op == "const" and a.args[0].x >= 1 and a.args[1].x >= 0 and b.op == "const" and b.x < 1:
                return "(PV.rpow_sub_pos (by norm_num) (by norm_num) (by norm_num))"
            if b.op == "const" and a.op == "fn" and a.x == "exp" and a.args[0].op == "const" and a.args[0].x >= 0 and b.x < 1:
                return "(PV.exp_sub_pos (by norm_num) (by norm_num))"
            if b.op == "const" and a.op == "add" and a.args[0].op == "const" and a.args[0].x > b.x:
                n = self.nonneg(a.args[1])
                return n and "(by have hq : 0 ≤ %s := %s; linarith : 0 < %s)" % (self.t(a.args[1]), n, self.t(e))
            if a.op == b.op == "fn" and a.x == b.x == "exp" and b.args[0].op == "sub" and b.args[0].args[0] is a.args[0]:
                p = self.pos(b.args[0].args[1])
                return p and "(PV.exp_sub_exp_pos %s)" % p
            return None
        if o == "powf":
            a = self.pos(A[0])
            return a and "(Real.rpow_pos_of_pos %s _)" % a
        if o == "fn":
            if e.x == "exp":
                return "(Real.exp_pos _)"
            if e.x == "cosh":
                return "(Real.cosh_pos _)"
            if e.x == "pi":
                return "Real.pi_pos"
            a = self.pos(A[0]) if A else None
            if a and e.x == "sinh":
                return "(Real.sinh_pos_iff.mpr %s)" % a
            if a and e.x == "tanh":
                return "(PV.tanh_pos %s)" % a
            if a and e.x == "sqrt":
                return "(Real.sqrt_pos.mpr %s)" % a
            if e.x == "ln" and A[0].op == "const" and A[0].x > 1:
                return "(Real.log_pos (by norm_num))"
        return None

    def open(self, e):
        """the summand at a bound index named by depth; the caller closes with raw.d -= 1"""
        kv = self.raw.kvar(self.raw.d, "N")
        self.raw.d += 1
        return kv, inst(e.args[1], e.x[0], kv)

    def ne0(self, e, positive=False):
        """proof of e ≠ 0; becomes a requirement when it does not follow from the signs"""
        p = self.pos(e)
        if p:
            return "(ne_of_gt %s)" % p
        if e.op == "const" and e.x != 0:
            return "(by norm_num)"
        if e.op == "neg":
            return "(neg_ne_zero.mpr %s)" % self.ne0(e.args[0])
        if e.op == "mul":
            return "(mul_ne_zero %s %s)" % (self.ne0(e.args[0], positive), self.ne0(e.args[1], positive))
        if e.op == "div" and not positive:
            return "(div_ne_zero %s %s)" % (self.ne0(e.args[0]), self.ne0(e.args[1]))
        if e.op == "powi" and e.args[1].op == "iconst" and e.args[1].x > 0:
            return "(pow_ne_zero _ %s)" % self.ne0(e.args[0])
        if any("§" in v.x for v in free_vars(e)):
            raise Unsupported("definedness under a sum")
        if positive:
            self.name_of(lt(ZERO, e))
            self.posm = {}
            return "(ne_of_gt %s)" % self.names[lt(ZERO, e)]
        return self.name_of(ne_(e, ZERO))

    # --- derivatives -----------------------------------------------------------------------
    def fun(self, e):
        return "(fun (%s : ℝ) => %s)" % (self.raw.v(self.x), self.t(e))

    def raweq(self, got, *plain):
        """justification of plain = got"""
        return "rfl" if got is plain[0] else "(D := %s) %s" % (self.t(got), SIMP)

    def d(self, e):
        """(D, proof term) of HasDerivAt (fun x => e) D x; None when e does not depend on x"""
        if not self.has(e):
            return None
        r = self.memo.get(e.id)
        if r is None:
            r = self.d0(e)
            if len(r[1]) > 400 and not self.loc:
                self.n += 1
                h = "hd%d" % self.n
                self.haves.append("have %s : HasDerivAt %s _ %s := %s" % (h, self.fun(e), self.raw.v(self.x), r[1]))
                r = (r[0], h)
            self.memo[e.id] = r
        return r

    def fin(self, smart, plain, head):
        """smart: simplified derivative, plain: as the lemma gives it"""
        if smart is plain:
            return smart, "(%s rfl)" % head
        return smart, "(%s (D := %s) %s)" % (head, self.t(smart), SIMP)

    def d0(self, e):
        o, A = e.op, e.args
        P = lambda op, *a: mk(op, a)
        if o == "var":
            return ONE, "(PV.d_id _)"
        if o in ("add", "sub"):
            a, b = self.d(A[0]), self.d(A[1])
            f = add if o == "add" else sub
            if a and b:
                return self.fin(f(a[0], b[0]), P(o, a[0], b[0]), "PV.d_%s %s %s" % (o, a[1], b[1]))
            if a:
                return a[0], "(PV.d_%s_c %s)" % (o, a[1])
            if o == "add":
                return b[0], "(PV.d_c_add %s)" % b[1]
            return self.fin(neg(b[0]), P("neg", b[0]), "PV.d_c_sub %s" % b[1])
        if o == "neg":
            a = self.d(A[0])
            return self.fin(neg(a[0]), P("neg", a[0]), "PV.d_neg %s" % a[1])
        if o == "mul":
            a, b = self.d(A[0]), self.d(A[1])
            if a and b:
                return self.fin(add(mul(a[0], A[1]), mul(A[0], b[0])), P("add", P("mul", a[0], A[1]), P("mul", A[0], b[0])), "PV.d_mul %s %s" % (a[1], b[1]))
            if a:
                return self.fin(mul(a[0], A[1]), P("mul", a[0], A[1]), "PV.d_mul_c %s" % a[1])
            return self.fin(mul(A[0], b[0]), P("mul", A[0], b[0]), "PV.d_c_mul %s" % b[1])
        if o == "div":
            a, b = self.d(A[0]), self.d(A[1])
            if b is None:
                return self.fin(div(a[0], A[1]), P("div", a[0], A[1]), "PV.d_div_c %s" % a[1])
            z = self.ne0(A[1])
            g2 = mk("powi", (A[1], iconst(2)))
            if a is None:
                return self.fin(neg(div(mul(A[0], b[0]), g2)), P("neg", P("div", P("mul", A[0], b[0]), g2)), "PV.d_c_div %s %s" % (b[1], z))
            return self.fin(div(sub(mul(a[0], A[1]), mul(A[0], b[0])), g2),
                            P("div", P("sub", P("mul", a[0], A[1]), P("mul", A[0], b[0])), g2), "PV.d_div %s %s %s" % (a[1], b[1], z))
        if o == "powi":
            if self.has(A[1]):
                raise Unsupported("exponent depends on the state")
            a = self.d(A[0])
            if A[1].op == "iconst":
                n = A[1].x
                if n >= 2:
                    pw = lambda f: f(A[0], iconst(n - 1))
                    return self.fin(mul(mul(const(n), pw(powi)), a[0]), P("mul", P("mul", const(n), mk("powi", (A[0], iconst(n - 1)))), a[0]),
                                    "PV.d_pow %d %d %s (by norm_num) rfl %s" % (n, n - 1, self.t(const(n)), a[1]))
                z = self.ne0(A[0])
                if n == -1:
                    g2 = mk("powi", (A[0], iconst(2)))
                    return self.fin(neg(div(a[0], g2)), P("neg", P("div", a[0], g2)), "PV.d_inv %s %s" % (a[1], z))
                g = mk("powi", (A[0], iconst(1 - n)))
                return self.fin(neg(div(mul(const(-n), a[0]), g)), P("neg", P("div", P("mul", const(-n), a[0]), g)),
                                "PV.d_inv_pow %d %d %s (by norm_num) rfl %s %s" % (-n, 1 - n, self.t(const(-n)), a[1], z))
            # integer exponent that is not a literal
            n = A[1]
            q = le(iconst(0), n)
            side = "(Or.inr %s)" % self.int_nonneg(n)
            m = isub(n, iconst(1))
            plain = P("mul", P("mul", i2r(n), mk("powi", (A[0], m))), a[0])
            return self.fin(mul(mul(i2r(n), powi(A[0], m)), a[0]), plain, "PV.d_zpow %s %s %s (by push_cast; rfl) (by omega) %s %s" % (
                self.t(n), self.t(m), self.t(i2r(n)), a[1], side))
        if o == "powf":
            if self.has(A[1]):
                raise Unsupported("exponent depends on the state")
            a = self.d(A[0])
            z = self.ne0(A[0], True)
            q = sub(A[1], ONE)
            pl = mk("powf", (A[0], q))
            return self.fin(mul(mul(A[1], powf(A[0], q)), a[0]), P("mul", P("mul", A[1], pl), a[0]), "PV.d_rpow (q := %s) (by norm_num) %s %s" % (self.t(q), a[1], z))
        if o == "fn":
            a = self.d(A[0])
            if e.x == "exp":
                return self.fin(mul(e, a[0]), P("mul", e, a[0]), "PV.d_exp %s" % a[1])
            if e.x == "ln":
                z = self.ne0(A[0], True)
                return self.fin(div(a[0], A[0]), P("div", a[0], A[0]), "PV.d_log %s %s" % (a[1], z))
            if e.x == "sqrt":
                z = self.ne0(A[0], True)
                return self.fin(div(a[0], mul(const(2), e)), P("div", a[0], P("mul", const(2), e)), "PV.d_sqrt %s %s" % (a[1], z))
            if e.x in ("sinh", "cosh", "sin"):
                g = fn({"sinh": "cosh", "cosh": "sinh", "sin": "cos"}[e.x], A[0])
                return self.fin(mul(g, a[0]), P("mul", g, a[0]), "PV.d_%s %s" % (e.x, a[1]))
            if e.x == "cos":
                g = neg(fn("sin", A[0]))
                return self.fin(mul(g, a[0]), P("mul", g, a[0]), "PV.d_cos %s" % a[1])
            if e.x == "tanh":
                g = mk("powi", (fn("cosh", A[0]), iconst(2)))
                return self.fin(div(a[0], g), P("div", a[0], g), "PV.d_tanh %s" % a[1])
            raise Unsupported("derivative of " + e.x)
        if o == "sum":
            n = A[0]
            if not self.has(e.args[1]):
                raise Unsupported("only the number of terms depends on the state")
            self.loc += 1
            kv, body = self.open(e)
            # shared pieces inside the sum cannot be named outside it
            sv, self.memo = self.memo, {}
            b = self.d(body)
            self.memo = sv
            f = "(fun (%s : ℕ) (%s : ℝ) => %s)" % (self.raw.v(kv), self.raw.v(self.x), self.t(body))
            self.raw.d -= 1
            self.loc -= 1
            D = bsum(n, kv, b[0])
            if D.op != "sum":
                raise Unsupported("trivial sum")
            p = "(PV.sum_hasDerivAt (f := %s) (fun %s h%s _ => %s))" % (f, self.raw.v(kv), self.raw.v(kv), b[1])
            if self.has(n):
                q = mk("evconst", (n, self.x), None, "B")
                nm = self.name_of(q)
                p = "(PV.d_sum_bound (n := %s) %s %s)" % (self.fun(n), nm, p)
            return D, p
        if o == "ite":
            c = A[0]
            a, b = self.d(A[1]), self.d(A[2])
            D = [(z[0] if z else ZERO) for z in (a, b)]
            pr = [(z[1] if z else "(PV.d_const _ _)") for z in (a, b)]
            if not self.has(c):
                return mk("ite", (c, D[0], D[1]), None, "R"), "(PV.d_ite (fun _ => %s) (fun _ => %s))" % tuple(pr)
            if c.op not in ("lt", "le") or c.args[0].sort != "R":
                raise Unsupported("condition depends on the state")
            u, v = self.d(c.args[0]), self.d(c.args[1])
            pu = u[1] if u else "(PV.d_const _ _)"
            pv = v[1] if v else "(PV.d_const _ _)"
            h = self.name_of(ne_(c.args[0], c.args[1]))
            return mk("ite", (c, D[0], D[1]), None, "R"), "(PV.d_ite_%s %s %s %s (fun _ => %s) (fun _ => %s))" % (c.op, pu, pv, h, pr[0], pr[1])
        if o == "call":
            h = self.contracts.get(e.x)
            if h is None:
                raise Unsupported("derivative of " + e.x)
            return h(self, e)
        raise Unsupported("derivative of " + o)

    def int_nonneg(self, n):
        q = le(iconst(0), n)
        if n.op == "isub" and n.args[1].op == "iconst":
            q = le(n.args[1], n.args[0])
        return "(by have hq := %s; omega)" % self.name_of(q)


def linear(y, v):
    """(a, b) with y = a v + b"""
    if not occurs(v, y):
        return ZERO, y
    if y is v:
        return ONE, ZERO
    o, A = y.op, y.args
    if o in ("add", "sub"):
        p, q = linear(A[0], v), linear(A[1], v)
        if p and q:
            f = add if o == "add" else (lambda a, b: neg(b) if is_const(a, 0) else sub(a, b))
            return f(p[0], q[0]), f(p[1], q[1])
        return None
    if o == "neg":
        p = linear(A[0], v)
        return p and (neg(p[0]), neg(p[1]))
    if o == "mul":
        for i in (0, 1):
            if not occurs(v, A[1 - i]):
                p = linear(A[i], v)
                if p is None:
                    return None
                z = ZERO if is_const(p[1], 0) else mul(p[1], A[1 - i])
                return mul(p[0], A[1 - i]), z
        return None
    if o == "div" and not occurs(v, A[1]):
        p = linear(A[0], v)
        if p is None:
            return None
        return div(p[0], A[1]), (ZERO if is_const(p[1], 0) else div(p[1], A[1]))
    return None


def h_sol(s):
    def f(df, e):
        return s.df, "slope%d" % s.i
    return f


def h_erf(df, e):
    a = df.d(e.args[0])
    z = e.args[0]
    g = mul(div(const(2), fn("sqrt", fn("pi"))), fn("exp", neg(powi(z, iconst(2)))))
    head = df.raw.fn_head(df.raw.at(e))
    df.hyps.setdefault("erf_deriv", "∀ z : ℝ, HasDerivAt %s (2 / Real.sqrt Real.pi * Real.exp (-(z ^ (2:ℕ)))) z" % head)
    pr = "(erf_deriv _)"
    if z.op == "div" and z.args[1].op == "fn" and z.args[1].x == "sqrt" and df.nonneg(z.args[1].args[0]):
        b = z.args[1].args[0]
        g = mul(div(const(2), fn("sqrt", fn("pi"))), fn("exp", neg(div(powi(z.args[0], iconst(2)), b))))
        pr = "(PV.erf_sqrt erf_deriv %s _)" % df.nonneg(b)
    return df.fin(mul(g, a[0]), mk("mul", (g, a[0])), "PV.d_comp (g := %s) (f := %s) %s %s" % (head, df.fun(z), pr, a[1]))


CONTRACTS = {"math::erf": h_erf}


class Callee:
    """contract of a function called by the code: its derivative by parameter `at` is scale * g, for positive values of it"""

    def __init__(self, fn, at, g, gargs, scale, lo=None, hi=None, everywhere=False):
        self.fn, self.at, self.g, self.gargs, self.scale, self.lo, self.hi = fn, at, g, gargs, scale, lo, hi
        self.everywhere = everywhere

    def slope(self, A):
        y = call(self.g, [A[k] if isinstance(k, int) else k for k in self.gargs])
        return scaled(self.scale(A), y)

    def __call__(self, df, e):
        A = e.args
        for i, a in enumerate(A):
            if i != self.at and df.has(a):
                raise Unsupported("derivative of %s by another parameter" % self.fn)
        y = var("y_")
        Ay = [y if i == self.at else a for i, a in enumerate(A)]
        un = lambda e: df.t(e).replace(df.raw.v(y), "y_")
        f = un(call(self.fn, Ay))
        lo = const(self.lo) if self.lo is not None else ZERO
        up = "" if self.hi is None else "y_ < %s → " % df.t(const(self.hi))
        txt = "∀ y_ : ℝ, " + ("" if self.everywhere else "%s < y_ → " % df.t(lo)) + up + "HasDerivAt (fun (y_ : ℝ) => %s) %s y_" % (f, un(self.slope(Ay)))
        nm = "callee%d" % len([h for h in df.hyps if h.startswith("callee")])
        for h, t in df.hyps.items():
            if t == txt:
                nm = h
        df.hyps[nm] = txt
        z = A[self.at]
        p = "" if self.everywhere else df.pos(z) if self.lo is None else None
        if p is None:
            p = df.name_of(lt(lo, z))
        if up:
            p += " " + df.name_of(lt(z, const(self.hi)))
        a = df.d(z)
        D = self.slope(A)
        return df.fin(mul(D, a[0]), mk("mul", (D, a[0])), "PV.d_comp (g := fun (y_ : ℝ) => %s) (f := %s) (%s _ %s) %s" % (f, df.fun(z), nm, p, a[1]))


def h_bessel(df, e):
    """the derivative of the modified Bessel function of order 0 is the one of order 1"""
    if e.args[0] is not iconst(0):
        raise Unsupported("derivative of a Bessel function of another order")
    return Callee(e.x, 1, e.x, [iconst(1), 1], lambda A: None, everywhere=True)(df, e)


CONTRACTS["math::bessel_i"] = h_bessel


def scaled(s, y):
    """s * y"""
    if s is None:
        return y
    return neg(y) if is_const(s, -1) else mul(s, y)


class Smooth:
    """contract of a function called by the code: it is differentiable by parameter `at` (its slope is a fresh symbol per point)"""

    def __init__(self, fn, at):
        self.fn, self.at = fn, at

    def __call__(self, df, e):
        A = e.args
        for i, a in enumerate(A):
            if i != self.at and df.has(a):
                raise Unsupported("derivative of %s by another parameter" % self.fn)
        if any(df.raw.is_kvar(v) for v in free_vars(e)):
            raise Unsupported("slope under a binder")
        z = A[self.at]
        key = ("smooth", e.id)
        if key not in df.points:
            df.points[key] = "smooth%d" % len(df.points)
        nm = df.points[key]
        s = var(nm + "_slope")
        y = var("y_")
        f = "(fun (y_ : ℝ) => %s)" % df.t(call(self.fn, [y if i == self.at else a for i, a in enumerate(A)])).replace(df.raw.v(y), "y_")
        df.hyps[nm] = "HasDerivAt %s %s %s" % (f, df.raw.v(s), df.t(z))
        a = df.d(z)
        return df.fin(mul(s, a[0]), mk("mul", (s, a[0])), "PV.d_comp (g := %s) (f := %s) %s %s" % (f, df.fun(z), nm, a[1]))


def map_calls(e, fn, memo=None):
    """replaces call nodes bottom up; fn(node) gives the replacement or None"""
    memo = {} if memo is None else memo

    def go(e):
        r = memo.get(e.id)
        if r is None:
            if not e.args:
                r = e
            elif e.op in BINDERS:
                v, body = open_binder(e)
                nb = go(body)
                na = [go(a) for a in e.args[:-1]]
                r = bsum(na[0], v, nb) if e.op == "sum" else bprod(na[0], v, nb) if e.op == "prod" else lam([v], nb)
            else:
                r = rebuild(e, [go(a) for a in e.args])
                if r.op == "call":
                    r = fn(r) or r
            memo[e.id] = r
        return r
    return go(e)


def prune(e, x, hi=None, lo=None):
    """the branch taken where lo < x < hi, for conditions that compare x with a constant"""
    def go(e):
        if e.op == "ite":
            c, inv = e.args[0], False
            while c.op == "not":
                c, inv = c.args[0], not inv
            if c.op in ("lt", "le"):
                a, b = c.args
                t = None
                if a.op == "const" and b is x and (hi is not None and a.x >= hi or lo is not None and a.x <= lo):
                    t = a.x <= lo if lo is not None else False
                elif a is x and b.op == "const" and (hi is not None and b.x >= hi or lo is not None and b.x <= lo):
                    t = not b.x <= lo if lo is not None else True
                if t is not None:
                    return go(e.args[1] if t != inv else e.args[2])
        if not e.args or e.op in BINDERS:
            return e
        return rebuild(e, [go(a) for a in e.args])
    return go(e)


class Conj:
    """the obligation d phi / d x = g"""

    def __init__(self, phi, g, x, reqs, callees=None):
        self.x = x
        p = Prep(x)
        self.phi, self.g = p.go(phi), p.go(g)
        self.sols = p.sols
        if len(self.sols) > 6:
            raise Unsupported("too many root finders")
        reqs = list(reqs)
        for s in self.sols:
            reqs.append(lt(const(-1) if s.kind.endswith("lambert_w") else ZERO, s.f))
        th = lean.Theorem("x", [], [])
        self.raw = Raw(th)
        con = dict(CONTRACTS, **(callees or {}))
        for s in self.sols:
            con[s.f.x] = h_sol(s)
        self.df = df = Diff(self.raw, x, reqs, con)
        r = df.d(self.phi)
        if r is None:
            r = (ZERO, "(PV.d_const _ _)")
        self.D, self.A = r
        self.lhs, self.rhs = self.D, self.g
        self.reqs = [q for q in df.reqs if q.op != "evconst"]
        self.eqs = []            # index of requirement
        for s in self.sols:
            self.reqs.append(eq_(s.lhs, s.rhs))
        self.eliminate(x)

    def eliminate(self, x):
        """x or another root from each equation where it is linear"""
        self.elims = []
        gone = set()
        self.rest = []
        for j, s in enumerate(self.sols):
            l, r2 = s.lhs, s.rhs
            for v, val, _, _ in self.elims:
                l, r2 = replace(l, v, val), replace(r2, v, val)
            ok = False
            for v in [x] + [q.f for q in self.sols]:
                if v in gone or v is s.f or occurs(v, l) or not occurs(v, r2):
                    continue
                ab = linear(r2, v)
                if ab is None or is_const(ab[0], 0):
                    continue
                a, b = ab
                n = l if is_const(b, 0) else sub(l, b)
                self.elims.append((v, n if is_const(a, 1) else div(n, a), a, len(self.reqs) - len(self.sols) + j))
                gone.add(v)
                ok = True
                break
            if not ok:
                self.rest.append(s)
        self.gone = gone

    def screen_form(self):
        """both sides and requirements with the equations solved; sampling ranges of the roots"""
        from . import sample
        es = [self.lhs, self.rhs] + [q for q in self.reqs if q.op != "eq"]
        for v, val, _, _ in self.elims:
            es = [replace(e, v, val) for e in es]
        rg = {}
        for s in self.sols:
            if s.f not in self.gone:
                n = var("root of " + s.f.x)
                es = [replace(e, s.f, n) for e in es]
                if s.kind.endswith("lambert_w"):
                    rg[n.x] = lambda r: -sample.uni(r, 0.001, 0.95)
                else:
                    rg[n.x] = lambda r: sample.logu(r, 0.05, 12) if r.random() < 0.6 else sample.uni(r, 1, 1.108)
        if self.rest:
            raise Unsupported("a root finder's equation that cannot be solved for the state")
        return es[0], es[1], es[2:], rg

    def complete(self, env):
        """fill in x and the roots"""
        from .num import evaluate
        env = dict(env)
        for s in self.sols:
            if "root of " + s.f.x in env:
                env[s.f.x] = env["root of " + s.f.x]
        for v, val, _, _ in reversed(self.elims):
            y = evaluate(val, env)
            if y is None:
                return None
            env[v.x] = y
        for s in self.sols:
            if s.df.x not in env:
                env[s.df.x] = mpf("0.7") + s.i
        for q in self.reqs:
            for v in free_vars(q):
                if v.x not in env:
                    env[v.x] = mpf("1.3")
        return env

    def theorem(self, name, samples, seed):
        th = lean.Theorem(name + "_B", self.reqs, samples, seed)
        th.short, th.opaque = self.raw.short, self.raw.opaque
        th.rel = True
        th.elims = [(v, val, self.ne_text(a), i, is_const(a, 1)) for v, val, a, i in self.elims]
        return th

    def text(self, th, btext, name):
        raw, df, x = self.raw, self.df, self.x
        v, tt = raw.v, raw.t
        used = list(th.opaque_used)
        phi, g = tt(self.phi), tt(self.g)
        bvars = th.binder_vars()
        hyps = []
        for s in self.sols:
            hyps.append("(slope%d : HasDerivAt %s %s %s)" % (s.i, raw.fn_head(raw.at(s.f)), v(s.df), v(x)))
        hyps += ["(%s : %s)" % (n, t) for n, t in df.hyps.items()]
        k = 0
        qn = []
        for q in df.reqs:
            n = df.names[q]
            if q.op == "evconst":
                hyps.append("(%s : ∀ᶠ (z_ : ℝ) in nhds %s, %s = %s)" % (n, v(x), tt(subst(q.args[0], {x: var("z_")})), tt(q.args[0])))
            else:
                hyps.append("(%s : %s)" % (n, tt(q)))
                qn.append(n)
        for s in self.sols:
            hyps.append("(root_eq%d : %s = %s)" % (s.i, tt(s.lhs), tt(s.rhs)))
            qn.append("root_eq%d" % s.i)
        for n, _ in th.extra_reqs:
            hyps.append("(%s : 0 < %s)" % (n, tt(th.byname[n[4:]].node.args[0])))
            qn.append(n)
        args = used + [v(b) for b in bvars]
        for at in th.base:
            args += ["_", "rfl" if not at.lifted else "(fun %s => rfl)" % " ".join("_" for _ in at.lifted)]
        lines = list(df.haves)
        lines.append("have hA : HasDerivAt %s _ %s := %s" % (df.fun(self.phi), v(x), self.A))
        lines.append("have hB := %s_B %s" % (name, " ".join(args + qn)))
        lines.append("exact hB ▸ hA" if False else "exact hA.congr_deriv hB")
        fv = set(free_vars(self.phi)) | set(free_vars(self.g)) | {x} | {s.df for s in self.sols} | set(bvars)
        for q in df.reqs:
            fv |= set(free_vars(q))
        for s in self.sols:
            fv |= set(free_vars(s.lhs)) | set(free_vars(s.rhs))
        bs = ["(%s : %s)" % (n, ty) for n, ty in raw.opaque.items()]
        bs += ["(%s : %s)" % (v(z), lean.TY[z.sort]) for z in sorted(fv, key=lambda z: z.x) if not raw.is_kvar(z)]
        body = "\n".join("  " + l for l in lines)
        return btext + "\n" + "theorem %s %s\n    %s :\n    HasDerivAt %s %s %s := by\n%s\n" % (
            name, " ".join(bs), "\n    ".join(hyps), df.fun(self.phi), g, v(x), body)

    def ne_text(self, a):
        if a.op == "neg":
            return "(neg_ne_zero.mpr %s)" % self.ne_text(a.args[0])
        return "(by positivity)"


def occurs(v, e):
    """v occurs in e; the argument of a root is not looked into"""
    seen = set()
    stack = [e]
    while stack:
        n = stack.pop()
        if n is v:
            return True
        if n.id in seen or (n.op == "call" and n.x.startswith("sol§")):
            continue
        seen.add(n.id)
        stack.extend(n.args)
    return False


class Rooted(Conj):
    """the obligation lhs = rhs, where root finders applied to x return roots of their equations"""

    def __init__(self, lhs, rhs, x, reqs):
        self.x = x
        p = Prep(x)
        self.lhs, self.rhs = p.go(lhs), p.go(rhs)
        self.sols = p.sols
        if len(self.sols) > 6:
            raise Unsupported("too many root finders")
        self.raw = Raw(lean.Theorem("x", [], []))
        self.reqs = list(reqs)
        for s in self.sols:
            self.reqs.append(lt(const(-1) if s.kind.endswith("lambert_w") else ZERO, s.f))
        for s in self.sols:
            self.reqs.append(eq_(s.lhs, s.rhs))
        self.eliminate(x)

    def theorem(self, name, samples, seed):
        th = Conj.theorem(self, name, samples, seed)
        th.name = name
        return th

    def text(self, th, btext, name):
        return btext


def replace(e, v, val):
    """replace a variable or a call node"""
    memo = {}

    def go(e):
        r = memo.get(e.id)
        if r is None:
            if e is v:
                r = val
            elif not e.args or e.op == "call" and e.x.startswith("sol§"):
                r = e
            elif e.op in BINDERS:
                z, body = open_binder(e)
                nb = go(body)
                na = [go(a) for a in e.args[:-1]]
                r = bsum(na[0], z, nb) if e.op == "sum" else bprod(na[0], z, nb) if e.op == "prod" else lam([z], nb)
            else:
                r = rebuild(e, [go(a) for a in e.args])
            memo[e.id] = r
        return r
    return go(e)
