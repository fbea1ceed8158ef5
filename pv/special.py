"""Special functions of the numerical library against their definitions: erf, erfc, erfcx (C13); Bessel functions (C14)."""
from fractions import Fraction
from mpmath import mpf
from .ir import *
from .core import *
from .engine import Ob
from .ranges import Ranges, Iv, INF
from .corollary import Corollary
from .deriv import Raw
from . import lean

F = Fraction
HEADER_B = "import PVC\nset_option maxHeartbeats 800000\nset_option linter.all false\nset_option maxRecDepth 20000\n"
HEADER_E = "import PV\nimport PVE\nset_option maxHeartbeats 800000\nset_option linter.all false\nset_option maxRecDepth 20000\n"


class NotPoly(Exception):
    pass


def exact(e, env, fns):
    """exact rational value of a formula; fns: {function name: value}"""
    memo = {}

    def go(e):
        r = memo.get(e.id)
        if r is None:
            r = memo[e.id] = go0(e)
        return r

    def go0(e):
        o = e.op
        if o in ("const", "iconst"):
            return Fraction(e.x)
        if o == "var" and e.x in env:
            return env[e.x]
        if o in ("add", "iadd"):
            return go(e.args[0]) + go(e.args[1])
        if o in ("sub", "isub"):
            return go(e.args[0]) - go(e.args[1])
        if o in ("mul", "imul"):
            return go(e.args[0]) * go(e.args[1])
        if o == "div":
            return go(e.args[0]) / go(e.args[1])
        if o in ("neg", "ineg"):
            return -go(e.args[0])
        if o == "powi" and e.args[1].op == "iconst":
            return go(e.args[0]) ** e.args[1].x
        if o == "fn" and e.x in fns:
            return fns[e.x](go(e.args[0]) if e.x != "exp" else e.args[0])
        raise NotPoly(o)
    return go(e)


def interpolate(f, deg):
    """coefficients of the polynomial of degree <= deg through f at rational points of [-1, 1]; checked at further points"""
    xs = [Fraction(2 * i, deg + 3) - 1 for i in range(deg + 4)]
    ys = [f(x) for x in xs]
    cs = list(ys)
    for j in range(1, len(xs)):
        for i in range(len(xs) - 1, j - 1, -1):
            cs[i] = (cs[i] - cs[i - 1]) / (xs[i] - xs[i - j])
    p = [Fraction(0)]
    for c, x in zip(reversed(cs), reversed(xs)):
        q = [Fraction(0)] + p
        for i, a in enumerate(p):
            q[i] -= x * a
        q[0] += c
        p = q
    while len(p) > 1 and p[-1] == 0:
        p.pop()
    if len(p) > deg + 1:
        raise NotPoly("not a polynomial of degree %d" % deg)
    return p


def qlit(c):
    return "%d" % c if c.denominator == 1 else "(%d / %d)" % (c.numerator, c.denominator)


COND = "first | assumption | (rw [le_div_iff₀ (by linarith)]; linarith) | (rw [lt_div_iff₀ (by linarith)]; linarith) | (rw [div_lt_iff₀ (by linarith)]; linarith) | (rw [div_le_iff₀ (by linarith)]; linarith) | linarith | (norm_num; done) | positivity | nlinarith"


class Near:
    """code, read under the ranges, is within tol of a definition on a region of the input

    proof(t, code text) -> tactic text for the accuracy goal"""

    def __init__(self, code, lhs, reqs, conds, goal, proof, pre=""):
        self.code, self.lhs, self.rhs, self.reqs, self.conds, self.goal, self.proof, self.pre = code, lhs, TRUE, list(reqs), conds, goal, proof, pre

    def screen_form(self):
        return self.lhs, self.rhs, self.reqs, {}

    def complete(self, env):
        return env

    def theorem(self, name, samples, seed):
        class P:
            def prove(self, l, r):
                return ""
        return P()

    def text(self, th, btext, name):
        raw = Raw(lean.Theorem("x", [], []))
        t = raw.t
        goal = self.goal(t, t(self.code))
        fv = set(free_vars(self.code))
        for q in self.reqs:
            fv |= set(free_vars(q))
        hy = ["(req%d : %s)" % (i, t(q)) for i, q in enumerate(self.reqs)]
        cs = " ∧ ".join(t(c) for c in self.conds) or "True"
        bs = " ".join("(%s : %s)" % (raw.v(z), lean.TY[z.sort]) for z in sorted(fv, key=lambda z: z.x))
        return "theorem %s %s %s :\n    (%s) ∧ %s := by\n%s  constructor\n  · (try refine ⟨%s⟩) <;> (%s)\n  · %s\n" % (
            name, bs, " ".join(hy), cs, goal, self.pre, ", ".join(["?_"] * max(1, len(self.conds))), COND if self.conds else "trivial", self.proof(t, t(self.code)).replace("\n", "\n    "))


def region(lo, hi, lop, hop):
    """(requirements, ranges, sampling) of x in the interval"""
    x = var("x")
    q = []
    if lo != -INF:
        q.append((lt if lop else le)(const(lo), x))
    if hi != INF:
        q.append((lt if hop else le)(x, const(hi)))
    a, b = (lo if lo != -INF else F(-30)), hi

    def draw(r):
        u = r.random()
        if b == INF:
            return mpf(a.numerator) / a.denominator * mpf(10) ** (20 * r.random())
        if u < 0.1 and not lop:
            return mpf(a.numerator) / a.denominator
        if u > 0.9 and not hop:
            return mpf(b.numerator) / b.denominator
        if 0.1 <= u < 0.5:
            w = (mpf(b.numerator) / b.denominator - mpf(a.numerator) / a.denominator) * mpf(10) ** (-6 * r.random())
            return mpf(a.numerator) / a.denominator + w * (1 - mpf(10) ** -12) if u < 0.3 else mpf(b.numerator) / b.denominator - w
        if a > 0 and b > 100 * a:
            return mpf(a.numerator) / a.denominator * (mpf(b.numerator) * a.denominator / b.denominator / a.numerator) ** mpf(r.random())
        return (mpf(a.numerator) + (mpf(b.numerator) / b.denominator * a.denominator - a.numerator) * mpf(r.random())) / a.denominator
    return q, (lambda: Ranges({"x": Iv(lo, hi, lop, hop)})), draw


def breaks(e, lo, hi):
    """points of the open interval at which an undecided comparison of the code changes"""
    out = set()
    for n in nodes(e):
        if n.op in ("lt", "le", "eq") and n.args[0].sort == "R":
            try:
                f = [exact(sub(n.args[0], n.args[1]), {"x": F(k)}, {}) for k in (1, 2, 5)]
            except (NotPoly, ZeroDivisionError):
                continue
            d = f[1] - f[0]
            if d != 0 and f[2] == f[0] + 4 * d:
                r = 1 - f[0] / d
                if (lo == -INF or lo < r) and (hi == INF or r < hi):
                    out.add(r)
    return sorted(out)


def pieces(read, lo, hi, lop, hop, depth=3):
    """split the region where the code takes different branches; read(ranges) -> formula"""
    try:
        e = read(region(lo, hi, lop, hop)[1]())
    except Unsupported:
        return [(lo, hi, lop, hop)]
    bs = breaks(e, lo, hi) if depth and any(n.op == "ite" for n in nodes(e)) else []
    if not bs or len(bs) > 12:
        return [(lo, hi, lop, hop)]
    out, a, ao = [], lo, lop
    for r in bs:
        out += [(a, r, ao, True), (r, r, False, False)]
        a, ao = r, True
    return [q for p in out + [(a, hi, ao, hop)] for q in pieces(read, *p, depth - 1)]


def tagged(ps):
    return [(("" if len(ps) == 1 else ".part%d" % i), p) for i, p in enumerate(ps)]


def c13(ctx):
    x = var("x")
    obs = []
    tol = const(F(1, 10 ** 11))
    absf = lambda a, b: fn("abs", sub(a, b))
    W = fn("erfcx", x)
    code = lambda f, R, **k: ctx.code("math::" + f, [x], ranges=R, math=bool(k), **k)
    claim = (call("math::erfcx", [x]), W)

    def add_erfcx(name, clause, lo, hi, lop, hop, proof):
        for tag, p in tagged(pieces(lambda R: code("erfcx", R), F(lo) if abs(lo) != INF else lo, F(hi) if abs(hi) != INF else hi, lop, hop)):
            add_erfcx1(name + tag, clause, p, proof)

    def add_erfcx1(name, clause, p, proof):
        reqs, rng, draw = region(*p)

        def alt():
            R = rng()
            e = code("erfcx", R)
            if any(n.op == "ite" for n in nodes(e)):
                raise Unsupported("the branch taken is not settled by the region")
            try:
                pr = proof(e)
            except NotPoly as z:
                raise Unsupported("not of the form of the reference approximation: %s" % z)
            return Near(e, le(absf(e, W), mul(tol, W)), reqs, list(R.used),
                        lambda t, c: "|%s - PVE.W x| ≤ 1 / 10 ^ 11 * PVE.W x" % c, pr)
        obs.append(Ob("math.erfcx." + name, "math::erfcx", clause, [alt], requires=reqs, claim=claim,
                      opts={"ranges": {"x": draw}, "rtol": 1.1e-11, "scale": 0, "real_n": 60, "point": p[0] == p[1]}))
    rel = "(by nlinarith [PVE.W_pos x])"

    def hc(rhs, tac):
        return lambda t, c: "have hc : %s = %s := by %s\nrw [hc]" % (c, rhs, tac)
    RING = "first | (simp only [PVE.cell, PVE.ev]; push_cast; ring) | (simp only [PVE.cell, PVE.ev]; push_cast; field_simp; ring)"

    def cell(k, sign):
        def proof(e):
            def at(t):
                z = (t + 2 * k + 1) / 2
                xx = F(400) / z - 4
                if sign < 0:
                    return -exact(e, {"x": -xx}, {"exp": lambda a: F(0)})
                return exact(e, {"x": xx}, {})
            q = interpolate(at, 12)
            ql = "[%s]" % ", ".join(qlit(c) for c in q)
            if sign > 0:
                return lambda t, c: ("have hc : %s = PVE.cell (7 + %d) %s x := by %s\nrw [hc]\n"
                                     "exact PVE.pos_cell %d _ (by decide +kernel) (le_of_eq_of_le (by norm_num) req0.le) (le_trans %s (by norm_num)) (by linarith only [req1])") % (c, k - 7, ql, RING, k - 7, "req1" if k > 7 else "req1.le")
            return lambda t, c: ("have hc : %s = 2 * Real.exp (x ^ 2) - PVE.cell (7 + %d) %s (-x) := by %s\nrw [hc]\n"
                                 "exact PVE.neg_cell %d _ (by decide +kernel) (le_of_eq_of_le (by norm_num) (neg_le_neg req1.le)) (le_trans (neg_le_neg req0) (by norm_num)) (by linarith only [req0]) (by linarith only [req1])") % (c, k - 7, ql, RING, k - 7)
        return proof
    for k in range(7, 100):
        lo, hi = F(400, k + 1) - 4, F(400, k) - 4
        add_erfcx("cell%d" % k, "exp(x^2) erfc(x) to 1e-11 relative on a table cell, 0 < x < 50", lo, min(hi, F(50)), True, hi >= 50, cell(k, 1))
    add_erfcx("zero", "exp(x^2) erfc(x) at 0", 0, 0, False, False,
              lambda e: lambda t, c: "have hx : x = 0 := by linarith\nsubst hx\nrw [PVE.W_zero]\nnorm_num")
    add_erfcx("rational", "exp(x^2) erfc(x) to 1e-11 relative for 50 <= x <= 5e7", 50, 5 * 10 ** 7, False, False,
              lambda e: lambda t, c: "have hc : %s = PVE.A x := by first | (unfold PVE.A; norm_num; done) | (unfold PVE.A; ring_nf; done) | (unfold PVE.A; field_simp; ring_nf; done)\nrw [hc]\nexact PVE.mid (by linarith)" % c)
    add_erfcx("far", "exp(x^2) erfc(x) to 1e-11 relative beyond 5e7", 5 * 10 ** 7, INF, True, False,
              lambda e: lambda t, c: "have hc : %s = 0.5641895835477563 / x := by first | (norm_num; done) | (ring_nf; norm_num; done) | (field_simp; norm_num)\nrw [hc]\nexact PVE.far (by linarith)" % c)
    for k in range(39, 100):
        lo, hi = F(400, k + 1) - 4, F(400, k) - 4
        add_erfcx("neg%d" % k, "exp(x^2) erfc(x) to 1e-11 relative on a mirrored table cell, -6.1 <= x < 0", max(-hi, F(-61, 10)), -lo, False, True, cell(k, -1))
    add_erfcx("negfar", "exp(x^2) erfc(x) to 1e-11 relative for -26.6 <= x < -6.1", F(-266, 10), F(-61, 10), False, True,
              lambda e: lambda t, c: "have hc : %s = 2 * Real.exp (x ^ 2) := by ring\nrw [hc]\nexact (PVE.neg_far (by linarith)).trans %s" % (c, rel))
    # erfc and erf over the contract of the function they call
    HX = call("math::erfcx", [x])

    def add_erfc(name, clause, lo, hi, lop, hop, rhs, goal, proof, hyp=None):
        for tag, p in tagged(pieces(lambda R: code("erfc", R, opq=("math::erfcx",)), lo, hi, lop, hop)):
            add_erfc1(name + tag, clause, *p, rhs, goal, proof, hyp)

    def add_erfc1(name, clause, lo, hi, lop, hop, rhs, goal, proof, hyp):
        reqs, rng, draw = region(lo, hi, lop, hop)
        if hi == INF:
            draw = region(lo, F(26), lop, hop)[2]

        def alt():
            R = rng()
            e = code("erfc", R, opq=("math::erfcx",))
            return Corollary(e, rhs, reqs, goal(e), lambda t: [hyp(t)] if hyp else [], proof)
        obs.append(Ob("math.erfc." + name, "math::erfc", clause, [alt], requires=reqs, claim=(call("math::erfc", [x]), fn("erfc", x)),
                      opts={"ranges": {"x": draw}, "rtol": 1.1e-11, "scale": 0, "real_n": 300, "point": lo == hi}))
    near = lambda e: (lambda t: "|%s - PVE.erfc x| ≤ 1 / 10 ^ 11 * PVE.erfc x" % t(e))
    add_erfc("main", "within 1e-11 relative of its definition for -6.1 <= x, given the contract of erfcx", F(-61, 10), INF, False, False,
             div(HX, fn("exp", powi(x, iconst(2)))), near, lambda t: "rw [hB]; exact PVE.erfc_of hv",
             lambda t: "(hv : |%s - PVE.W x| ≤ 1 / 10 ^ 11 * PVE.W x)" % t(HX))
    add_erfc("far", "within 1e-11 relative of its definition for x < -6.1", -INF, F(-61, 10), False, True,
             const(2), near, lambda t: "rw [hB]; exact (PVE.erfc_far (by linarith)).trans (by nlinarith [PVE.erfc_pos x])")
    HC = call("math::erfc", [x])

    def erf_alt():
        e = ctx.code("math::erf", [x], opq=("math::erfc",), math=False)
        return Corollary(e, sub(ONE, HC), [], lambda t: "|%s - PVE.erf x| ≤ 1 / 10 ^ 10" % t(e),
                         lambda t: ["(hv : |%s - PVE.erfc x| ≤ 1 / 10 ^ 11 * PVE.erfc x)" % t(HC)],
                         lambda t: "rw [hB]; exact (PVE.erf_of (by norm_num) hv).trans (by norm_num)")
    obs.append(Ob("math.erf", "math::erf", "within 1e-10 of its definition, given the contract of erfc", [erf_alt], requires=[],
                  claim=(add(const(2), call("math::erf", [x])), add(const(2), fn("erf", x))),
                  opts={"ranges": {"x": lambda r: mpf(r.choice((-1, 1))) * mpf(10) ** (r.random() * 5 - 3)}, "rtol": 1e-10, "scale": 0, "real_n": 800}))
    return obs


def trim(p):
    p = list(p)
    while p and p[-1] == 0:
        p.pop()
    return p


def shift(p, c, h):
    """p(c + h s) as a polynomial of s"""
    r = []
    for a in reversed(p):
        q = [F(0)] * (len(r) + 1)
        for i, y in enumerate(r):
            q[i] += y * c
            q[i + 1] += y * h
        q[0] += a
        r = q
    return trim(r)


def c14(ctx):
    x = var("x")
    obs = []
    tol = const(F(1, 10 ** 10))
    one = {"exp": lambda a: F(1), "sqrt": lambda a: F(1)}

    def exps(e, t, sign):
        """rewrites every exponential of the code and of the reference to powers of E = exp(|x|/2)"""
        seen = {"x" if sign > 0 else "-x": 2}
        for n in nodes(e):
            if n.op == "fn" and n.x == "exp":
                try:
                    r = [2 * exact(n.args[0], {"x": F(sign * k)}, {}) for k in (1, 3)]
                except NotPoly:
                    raise Unsupported("exponential of another argument")
                if r[1] != 3 * r[0] or r[0].denominator != 1 or not 0 < r[0] <= 8:
                    raise Unsupported("exponential of another argument")
                seen[t(n.args[0])] = int(r[0])
        out = ["obtain ⟨E, hE⟩ : ∃ E, E = Real.exp (%sx / 2) := ⟨_, rfl⟩" % ("" if sign > 0 else "-")]
        for i, (z, r) in enumerate(seen.items()):
            out.append("have he%d : Real.exp (%s) = E ^ %d := by\n  rw [hE, ← Real.exp_nat_mul]; congr 1; push_cast; ring" % (i, z, r))
        return "\n".join(out), ", ".join("he%d" % i for i in range(len(seen)))

    def add(nu, name, lo, hi, hop, sign, kind):
        lo, hi = F(lo), F(hi)
        ps = pieces(lambda R: ctx.code("math::bessel_i", [iconst(nu), x], ranges=R, math=False), *((lo, hi, False, hop) if sign > 0 else (-hi, -lo, hop, lo == 0)))
        for tag, p in tagged(ps):
            add1(nu, name + tag, p, sign, kind)

    def add1(nu, name, p, sign, kind):
        reqs, rng, draw = region(*p)
        I = "PVB.I%d" % nu

        def alt():
            R = rng()
            e = ctx.code("math::bessel_i", [iconst(nu), x], ranges=R, math=False)
            if any(n.op == "ite" for n in nodes(e)):
                raise Unsupported("the branch taken is not settled by the region")
            par = sign if nu else 1
            xs = "x" if sign > 0 else "(-x)"
            try:
                if kind == "small":
                    p = interpolate(lambda z: par * exact(e, {"x": sign * z}, {}), 44)
                    if any(p[1 - nu::2]):
                        raise Unsupported("not of the form of the reference approximation: parity")
                    q = [p[i] * F(4) ** ((i - nu) // 2) * (2 if nu else 1) for i in range(nu, len(p), 2)]
                else:
                    q = shift(interpolate(lambda s: par * exact(e, {"x": sign * 1000 / (2 + s)}, one), 30), F(-2), F(1000))
            except NotPoly as z:
                raise Unsupported("not of the form of the reference approximation: %s" % z)
            ql = "[%s]" % ", ".join(qlit(c) for c in trim(q))
            value = "PVB.I%d x" % nu

            def proof(t, c):
                if kind == "small":
                    rhs = "PVE.ev %s (%s ^ 2 / 4)" % (ql, xs)
                    if nu:
                        rhs = "%s / 2 * %s" % (xs, rhs)
                    pre, hs = "", "PVE.ev"
                    use = "PVB.small%d (q := %s) (by decide +kernel) (x := %s)" % (nu, ql, xs)
                else:
                    rhs = "PVB.Y %s %s" % (ql, xs)
                    pre, h = exps(e, t, sign)
                    hs = "PVB.Y, PVE.ev, " + h
                    use = "PVB.%s%d (q := %s) (by decide +kernel) (x := %s)" % (kind, nu, ql, xs)
                if par < 0:
                    rhs = "-(%s)" % rhs
                out = "have hq := %s (by linarith) (by linarith)\n" % use
                if sign < 0:
                    out += "rw [PVB.I%d_neg] at hq\n" % nu
                out += "have hc : %s = %s := by\n" % (c, rhs)
                body = "have hx : x ≠ 0 := by %s\n" % ("intro h; linarith") if kind != "small" else ""
                body += (pre + "\n" if pre else "")
                body += "simp only [%s]\npush_cast\nfirst | (ring1; done) | (field_simp; ring1)" % hs
                out += "\n".join("  " + l for l in body.split("\n")) + "\n"
                out += "rw [hc]\n"
                if par < 0:
                    out += "rw [abs_le] at hq ⊢\nconstructor <;> linarith [hq.1, hq.2]"
                else:
                    out += "exact hq"
                return out

            g = fn("bessel_i%d" % nu, x)
            return Near(e, le(fn("abs", sub(e, g)), mul(tol, fn("abs", g))), reqs, list(R.used),
                        lambda t, c: "|%s - %s| ≤ 1 / 10 ^ 10 * %s" % (c, value, value if par > 0 else "-(%s)" % value), proof)
        obs.append(Ob("math.bessel_i%d.%s" % (nu, name), "math::bessel_i", "I%d to 1e-10 relative, %s" % (nu, name), [alt], requires=reqs,
                      claim=(call("math::bessel_i", [iconst(nu), x]), fn("bessel_i%d" % nu, x)),
                      opts={"ranges": {"x": draw}, "rtol": 1.1e-10, "scale": 0, "real_n": 200, "point": p[0] == p[1]}))
    J = F(31, 4)
    for nu in (0, 1):
        for sign, pre in ((1, ""), (-1, "negative ")):
            add(nu, (pre + "small").replace(" ", "."), 0, J, True, sign, "small")
            add(nu, (pre + "mid").replace(" ", "."), J, 500, True, sign, "mid")
            add(nu, (pre + "large").replace(" ", "."), 500, 700, False, sign, "far")
    return obs
