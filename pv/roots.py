"""Root finding (C12): Newton's iteration for any function, and the accuracy of the inverse Langevin function."""
from fractions import Fraction
from mpmath import mpf
from .core import *
from .engine import Ob
from .symex import NatV, V
from .corollary import Corollary
from .deriv import Raw
from .special import Near, region, pieces, tagged, qlit
from .ranges import Ranges, Iv
from . import lean

F = Fraction
HEADER = "import PV\nimport PVN\nset_option maxHeartbeats 800000\nset_option linter.all false\nset_option maxRecDepth 20000\n"
BARE = "the loop is not of the form of Newton's iteration"


def parts(e):
    """a loop over (x, other values computed from the previous x): its start, number of steps, step, condition on the other value"""
    if e.op != "loop" or e.x[0] != "for":
        raise Unsupported(BARE)
    _, m, i = e.x
    n, inits, cond, steps = e.args[0], e.args[1:m + 1], e.args[m + 1], e.args[m + 2:]
    k = fresh("k", "Z")
    xs = [fresh("s", z.sort) for z in inits]

    def body(l):
        for v in [k] + xs:
            if l.op != "lam":
                raise Unsupported(BARE)
            l = inst(l.args[0], l.x[0], v)
        return l
    cond, steps = body(cond), [body(s) for s in steps]
    x, step = xs[i], steps[i]
    if set(free_vars(step)) & (set(xs + [k]) - {x}):
        raise Unsupported(BARE + ": the step depends on more than the iterate")
    dep = [j for j in range(m) if xs[j] in set(free_vars(cond))]
    if len(dep) != 1 or dep[0] == i or k in free_vars(cond):
        raise Unsupported(BARE + ": the condition to go on")
    j = dep[0]
    if set(free_vars(steps[j])) & (set(xs + [k]) - {x}):
        raise Unsupported(BARE + ": the residual depends on more than the iterate")
    return {"n": n, "x0": inits[i], "r0": inits[j], "x": x, "step": step, "s": xs[j], "res": steps[j], "cond": cond}


def newton(y, f, fp, guess, tol, n, p=ONE):
    """the reference iteration"""
    k, x, r = fresh("k", "Z"), fresh("x"), fresh("r")
    vs = [k, x, r]
    step = add(x, div(div(sub(y, f(x)), fp(x)), p))
    return mk("loop", [n, guess, const(1), lam(vs, lt(tol, r)), lam(vs, step), lam(vs, fn("abs", div(sub(y, f(x)), y)))], ("for", 2, 0), "R")


class Iter:
    """the code's loop is Newton's iteration"""

    def __init__(self, code, spec, reqs):
        self.code, self.spec, self.reqs = code, spec, list(reqs)
        self.a, self.b = parts(code), parts(spec)
        self.lhs, self.rhs = code, spec

    def screen_form(self):
        return self.lhs, self.rhs, self.reqs, {}

    def complete(self, env):
        return env

    def theorem(self, name, samples, seed):
        class P:
            def prove(self, l, r):
                return ""
        return P()

    def text(self, th, btext, name):
        raw = Raw(lean.Theorem("x", [], []))
        t = raw.t
        a, b = self.a, self.b
        x, s = var("x_"), var("s_")
        at = lambda q, k: subst(q[k], {q["x"]: x})
        loop = lambda q: "PVN.whl (fun s_ : ℝ => %s) (fun x_ : ℝ => %s) (fun x_ : ℝ => %s) (%s).toNat (%s) (%s)" % (
            t(subst(q["cond"], {q["s"]: s})), t(at(q, "step")), t(at(q, "res")), t(q["n"]), t(q["x0"]), t(q["r0"]))
        l, r = loop(a), loop(b)
        fv = set()
        for q in (a, b):
            for z in ("n", "x0", "r0", "step", "res", "cond"):
                fv |= set(free_vars(q[z]))
        for q in self.reqs:
            fv |= set(free_vars(q))
        fv -= {a["x"], b["x"], a["s"], b["s"]}
        hy = ["(req%d : %s)" % (i, t(q)) for i, q in enumerate(self.reqs)]
        bs = ["(%s : %s)" % (n, ty) for n, ty in raw.opaque.items()]
        bs += ["(%s : %s)" % (raw.v(z), lean.TY[z.sort]) for z in sorted(fv, key=lambda z: z.x)]
        # equal conditions on equal steps and residuals
        return """theorem %s %s %s :
    %s =
    %s := by
  refine PVN.whl_congr (fun x_ => ?_) (fun x_ => ?_) ?_ rfl rfl
  · first | rfl | (ring1; done) | (simp only [PVN.powered _ _ (by assumption : (0:ℤ) < _)]; ring1) | (field_simp; ring1)
  · have he_ : %s = %s := by
      first | rfl | (congr 1; ring1) | (rw [← abs_neg]; congr 1; ring1) | (rw [← abs_div]; congr 1; ring1) | (rw [← abs_div, ← abs_neg]; congr 1; ring1)
    simp only [he_]
    first | done | exact Iff.rfl | (constructor <;> intro h_ <;> (try push Not at h_ ⊢) <;> linarith)
  · first | exact Iff.rfl | (constructor <;> intro h_ <;> linarith)
""" % (name, " ".join(bs), " ".join(hy), l, r, t(at(a, "res")), t(at(b, "res")))


def ratfun(e, y):
    """numerator and denominator of a rational function of y, as coefficient lists"""
    def pm(a, b):
        r = [F(0)] * (len(a) + len(b) - 1)
        for i, u in enumerate(a):
            for j, v in enumerate(b):
                r[i + j] += u * v
        return r

    def pa(a, b, s=1):
        r = [F(0)] * max(len(a), len(b))
        for i, u in enumerate(a):
            r[i] += u
        for i, u in enumerate(b):
            r[i] += s * u
        return r

    def go(e):
        o = e.op
        if o in ("const", "iconst"):
            return [F(e.x)], [F(1)]
        if e is y:
            return [F(0), F(1)], [F(1)]
        if o in ("add", "sub"):
            (a, b), (c, d) = go(e.args[0]), go(e.args[1])
            s = 1 if o == "add" else -1
            return (pa(a, c, s), b) if b == d else (pa(pm(a, d), pm(c, b), s), pm(b, d))
        if o == "mul":
            (a, b), (c, d) = go(e.args[0]), go(e.args[1])
            return pm(a, c), pm(b, d)
        if o == "div":
            (a, b), (c, d) = go(e.args[0]), go(e.args[1])
            return pm(a, d), pm(b, c)
        if o == "neg":
            a, b = go(e.args[0])
            return [-u for u in a], b
        if o == "powi" and e.args[1].op == "iconst" and 0 <= e.args[1].x < 12:
            a, b = go(e.args[0])
            n, d = [F(1)], [F(1)]
            for _ in range(e.args[1].x):
                n, d = pm(n, a), pm(d, b)
            return n, d
        raise Unsupported("the guess is not a rational function")
    n, d = go(e)
    trim = lambda p: trim(p[:-1]) if len(p) > 1 and p[-1] == 0 else p
    return trim(n), trim(d)


def over_one_minus(p):
    """p / (1 - y), exact"""
    if sum(p) != 0:
        raise Unsupported("the guess does not diverge at 1")
    q, c = [], F(0)
    for u in p[:-1]:
        c += u
        q.append(c)
    return q


LANGEVIN = "{ let x: f64 = %s; if x.abs() < 0.05 { x/3.0 - x.powi(3)/45.0 + 2.0*x.powi(5)/945.0 - x.powi(7)/4725.0 } else { 1.0/x.tanh() - 1.0/x } }"


def c12(ctx):
    obs = []
    y, g, tol, n, p = var("y"), var("guess"), var("rel_tol"), var("max_iters", "Z"), var("power", "Z")
    f = lambda x: call("f", [x])
    fp = lambda x: call("slope", [x])
    sym = lambda name: NatV(lambda a, st: V(call(name, [x.e for x in a]), "f64"), name)
    a, b = var("a"), var("b")
    F3 = lambda x: add(mul(a, powi(x, iconst(3))), mul(b, x))
    D3 = lambda x: add(mul(mul(const(3), a), powi(x, iconst(2))), b)
    RF, RD = "&|x: &f64| a[1]*x.powi(3) + a[2]*x", "&|x: &f64| 3.0*a[1]*x.powi(2) + a[2]"
    rg = {"max_iters": lambda r: r.choice([0, 1, 2, 3, 4, 5, 6, 8]), "rel_tol": lambda r: mpf(10) ** (-2.5 * r.random()) * mpf("0.99"), "power": (1, 5),
          "y": lambda r: mpf(r.uniform(0.2, 4.0)) * r.choice((1, 1, -1)), "guess": (0.3, 3.0), "a": (0.1, 2.0), "b": (0.5, 3.0)}
    base = [lt(ZERO, tol), lt(tol, ONE), le(iconst(0), n), le(n, iconst(255)), not_(eq(y, ZERO))]
    for name, extra, rq, pw in (("inverse_newton_raphson", [], [], ONE), ("inverse_newton_raphson_powered", [p], [lt(iconst(0), p), le(p, iconst(100))], i2r(p))):
        path = "math::" + name

        def alt(path=path, extra=extra, rq=rq, pw=pw):
            e = ctx.code(path, [y, sym("f"), sym("slope"), g, tol, n] + extra, math=False)
            return Iter(e, newton(y, f, fp, g, tol, n, pw), base + rq)
        sn = {"obj:" + name: "polymers::math::%s(&a[0], %s, %s, &a[3], &a[4], &(a[5] as u8)%s)" % (name, RF, RD, ", a[6] as i32" if extra else "")}
        obs.append(Ob("math.%s" % name, path, "Newton's iteration for any function, until the relative residual is within the tolerance or max_iters steps",
                      [alt], requires=base + rq, claim=(call("obj:" + name, [y, a, b, g, tol, i2r(n)] + [i2r(z) for z in extra]), newton(y, F3, D3, g, tol, n, pw)),
                      snippets=sn, opts={"ranges": rg, "bounded_ok": BARE, "real_n": 200, "rtol": 1e-7}))
        # the guess is the root
        root = lambda: newton(F3(g), F3, D3, g, tol, n, pw)
        sn2 = {"obj:root:" + name: "{ let g = a[3]; let r = polymers::math::%s(&(a[1]*g.powi(3) + a[2]*g), %s, %s, &a[3], &a[4], &(a[5] as u8)%s); if r.is_nan() { -1e300 } else { r } }" % (name, RF, RD, ", a[6] as i32" if extra else "")}

        def alt2(path=path, extra=extra, rq=rq, pw=pw):
            e = ctx.code(path, [call("f", [g]), sym("f"), sym("slope"), g, tol, n] + extra, math=False)
            q = parts(e)
            s = subst(q["step"], {q["x"]: g})
            for d in nodes(s):
                if d.op == "div" and d.args[1].sort == "R" and not any(z.op == "call" and z.x == "slope" for z in nodes(d.args[1])):
                    w = d.args[1]
                    if any(z.op == "call" and z.x == "f" for z in nodes(w)):
                        return s, fn("undefined", g), base + rq
            return s, g, base + rq + [not_(eq(call("slope", [g]), ZERO))]
        obs.append(Ob("math.%s.root" % name, path, "a guess that is the root is returned", [alt2], requires=base + rq,
                      claim=(call("obj:root:" + name, [y, a, b, g, tol, i2r(n)] + [i2r(z) for z in extra]), g), snippets=sn2,
                      opts={"ranges": rg, "bounded_ok": BARE, "real_n": 60, "rtol": 1e-12}))
    return obs + langevin(ctx) + lambert()


def lambert():
    """bounded: the iteration count depends on the argument, and no bound on the start's distance to the root is under contract"""
    x = var("x")

    def alt():
        raise Unsupported("Halley's iteration, whose accuracy after the chosen number of steps is not under contract")

    def drawn(r):
        u = r.random()
        if u < 0.2:
            return -mpf(36) / 100 * mpf(10) ** (-6 * r.random()) if u < 0.1 else -mpf(36) / 100 * r.random()
        return mpf(10) ** (-8 + 30 * r.random()) if u < 0.6 else mpf(10) ** (300 * r.random()) if u < 0.8 else 12 * r.random() + mpf(10) ** -9
    return [Ob("math.lambert_w", "math::lambert_w", "w exp(w) is the argument to 1e-7 relative, for -0.36 < x <= 1e300", [alt], requires=[lt(const(F(-36, 100)), x), le(x, const(F(10 ** 300))), not_(eq(x, ZERO))],
               claim=(call("obj:lambert", [x]), x), snippets={"obj:lambert": "{ let w = polymers::math::lambert_w(&a[0]); if w > 20.0 { (w + w.ln()).exp() } else { w*w.exp() } }"},
               opts={"ranges": {"x": drawn}, "rtol": 1e-7, "scale": 0, "real_n": 3000, "bounded_ok": "Halley's iteration"})]


def langevin(ctx):
    obs = []
    x = var("x")
    L = lambda h: sub(div(ONE, fn("tanh", h)), div(ONE, h))
    tol = const(F(1, 10 ** 6))
    claim = (call("obj:langevin", [x]), x)
    sn = {"obj:langevin": LANGEVIN % "polymers::math::inverse_langevin(&a[0])"}

    def add1(tag, clause, p_):
        reqs, rng, draw = region(*p_)
        lo, hi = p_[0], p_[1]

        def sampled(r):
            u = r.random()
            if lo == 0 and u < 0.4:
                return mpf(hi.numerator) / hi.denominator * mpf(10) ** (-8 * r.random())
            if hi == 1 and u < 0.3:
                return 1 - mpf(10) ** (-1 - 9 * r.random())
            return draw(r)

        def alt():
            R = rng()
            e = ctx.code("math::inverse_langevin", [x], ranges=R, math=False)
            if any(n.op == "ite" for n in nodes(e)):
                raise Unsupported("the branch taken is not settled by the region")
            screen = le(fn("abs", sub(L(e), x)), mul(tol, x))
            goal = lambda t, c: "|PVN.L (%s) - %s| ≤ 1 / 10 ^ 6 * %s" % (c, t(x), t(x))
            if e.op != "loop":
                ob = Near(e, screen, reqs, list(R.used), goal,
                          lambda t, c: "have hc : %s = 3 * x := by first | rfl | ring\nrw [hc]\nexact PVN.small (by linarith) (by linarith)" % c)
                return ob
            q = parts(e)
            N, D = ratfun(q["x0"], x)
            if N[0] != 0:
                raise Unsupported("the guess at 0")
            N, D = N[1:], over_one_minus(D)
            ql = lambda z: "[%s]" % ", ".join(qlit(c) for c in z)
            u, s = var("x_"), var("s_")
            if q["n"].op != "iconst" or not 1 <= q["n"].x <= 255:
                raise Unsupported("the number of steps")

            def code(t):
                at = lambda k: t(subst(q[k], {q["x"]: u}))
                return "PVN.whl (fun s_ : ℝ => %s) (fun x_ : ℝ => %s) (fun x_ : ℝ => %s) %d (%s) (%s)" % (
                    t(subst(q["cond"], {q["s"]: s})), at("step"), at("res"), q["n"].x, t(q["x0"]), t(q["r0"]))

            def proof(t, c):
                at = lambda k: t(subst(q[k], {q["x"]: u}))
                return """rw [PVN.whl_eq_run (by norm_num)]
have hT : (fun x_ : ℝ => %s) = PVN.T x := by
  funext x_
  unfold PVN.T PVN.L PVN.L'
  first | rfl | ring1 | (norm_num; done) | (rw [Real.tanh_eq_sinh_div_cosh]; ring1) | (rw [Real.tanh_eq_sinh_div_cosh, one_div_div]; ring1) | (simp only [one_div, inv_div, Real.tanh_eq_sinh_div_cosh]; ring1)
rw [hT]
have hp0 : 0 < x := by linarith
have hp1 : x < 1 := by linarith
have hD0 : 0 < PVE.ev %s x := PVN.pos_on 10 0 1 _ (by norm_num) (by decide +kernel) (by push_cast; linarith) (by push_cast; linarith)
refine PVN.inverse 10 %d %s %s ?_ hp0 hp1 (by decide +kernel) (by decide +kernel) (by decide +kernel) (by decide +kernel) (by decide +kernel) (by decide +kernel) ?_ (by norm_num)
· have hw : 0 < 1 - x := by linarith
  have hd : 0 < (1 - x) * PVE.ev %s x := mul_pos hw hD0
  simp only [PVE.ev] at hd hD0 ⊢
  push_cast at hd hD0 ⊢
  first | (rw [div_div]; congr 1 <;> ring1) | (congr 1 <;> ring1) | (rw [eq_div_iff hd.ne']; field_simp; ring1)
· intro x_ h0 hn
  rw [not_lt] at hn
  have hr : %s = |(x - PVN.L x_) / x| := by
    unfold PVN.L
    try simp only [Real.tanh_eq_sinh_div_cosh, one_div_div]
    first | done | rfl | (congr 1; ring1) | (rw [← abs_neg]; congr 1; ring1) | (rw [← abs_div]; congr 1; ring1) | (rw [← abs_div, ← abs_neg]; congr 1; ring1) | (rw [abs_div, abs_of_pos hp0]; congr 2; ring1) | (rw [abs_div, abs_of_pos hp0, ← abs_neg]; congr 2; ring1)
  rw [hr, abs_div, abs_of_pos hp0, div_le_iff₀ hp0] at hn
  linarith""" % (at("step"), ql(D), q["n"].x - 1, ql(N), ql(D), ql(D), at("res"))
            ob = Near(e, screen, reqs, list(R.used), lambda t, c: "|PVN.L (%s) - %s| ≤ 1 / 10 ^ 6 * %s" % (code(t), t(x), t(x)), proof)
            ob.code = x
            return ob
        obs.append(Ob("math.inverse_langevin." + tag, "math::inverse_langevin", clause, [alt], requires=reqs, claim=claim, snippets=sn,
                      opts={"ranges": {"x": sampled}, "rtol": 1.1e-6, "scale": 0, "real_n": 3000, "bounded_ok": "the start or the steps of the iteration are not of the proved form"}))
    try:
        ps = pieces(lambda R: ctx.code("math::inverse_langevin", [x], ranges=R, math=False), F(0), F(1), True, True)
    except (Unsupported, LostAnchor):
        ps = [(F(0), F(1), True, True)]
    for tag, q in tagged(ps):
        add1((tag.strip(".") or "all"), "L(x) within 1e-6 of y relative, where L(x) = coth x - 1/x, for every 0 < y < 1", q)
    return obs
