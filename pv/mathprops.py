"""The numerical library: quadrature (C11)."""
from fractions import Fraction
from .core import *
from .engine import Ob
from .symex import SeqV, NatV, V
from .corollary import Corollary
from . import sample

Q = lambda a, b=1: const(Fraction(a, b))
HALF = Q(1, 2)


def counts(top, big, p):
    return lambda r: r.randint(1, top) if r.random() > p else r.randint(top, big)


NP = {"probe": [{"num_points": 70000}], "ranges": {"num_points": counts(7, 400, 0.2), "grid_x_len": counts(6, 60, 0.1), "grid_y_len": counts(6, 40, 0.1)}}


def sym_fn(name, k):
    """an arbitrary real function of k real numbers"""
    return NatV(lambda a, st: V(call(name, [x.e for x in a]), "f64"), name)


def poly_fn(cs):
    """c0 + c1 x (+ c2 y)"""
    def go(a, st):
        e = cs[0]
        for c, x in zip(cs[1:], a):
            e = add(e, mul(c, x.e))
        return V(e, "f64")
    return NatV(go, "affine")


def sym_slice(name, n):
    return SeqV(n, lambda k: V(call(name, [i2r(k)]), "f64"))


def c11(ctx):
    obs = []
    n = var("num_points", "Z")
    a, b, c, d = var("x_min"), var("x_max"), var("y_min"), var("y_max")
    N = i2r(n)
    mid = lambda lo, h, k: add(lo, mul(add(HALF, i2r(k)), h))
    pos = [lt(iconst(0), n)]

    def ob(f, name, clause, mk_sides, claim=None, snippets=None, reqs=pos, opts=None):
        def alt():
            l, r = mk_sides()
            return l, r, reqs
        obs.append(Ob("math." + f + name, "math::" + f, clause, [alt], claim=claim, snippets=snippets, opts=dict(NP, **(opts or {}))))

    def cells(lo, hi):
        return div(sub(hi, lo), N)

    def midpoint1(F):
        k = fresh("k", "Z")
        h = cells(a, b)
        return mul(bsum(n, k, F(mid(a, h, k))), h)

    def midpoint2(F, c, d):
        i, j = fresh("i", "Z"), fresh("j", "Z")
        h, g = cells(a, b), cells(c, d)
        return mul(mul(bsum(n, i, bsum(n, j, F(mid(a, h, i), mid(c, g, j)))), h), g)
    f1 = lambda *x: call("integrand", list(x))
    p, q, r = var("p"), var("q"), var("r")
    aff = lambda *x: add(p, add(mul(q, x[0]), mul(r, x[1])) if len(x) > 1 else mul(q, x[0]))
    # a definite integrand for the comparison with the compiled code
    cub = lambda *x: add(p, add(mul(q, powi(x[0], iconst(3))), mul(r, powi(x[-1], iconst(2)))))
    R1 = "&|x: &f64| a[0] + a[1]*x.powi(3) + a[2]*x.powi(2)"
    R2 = "&|x: &f64, y: &f64| a[0] + a[1]*x.powi(3) + a[2]*y.powi(2)"
    L1 = "&|x: &f64| a[0] + a[1]*x"
    NP2 = {"ranges": {"num_points": counts(7, 25, 0.1)}, "probe": [{"num_points": 300}]}
    L2 = "&|x: &f64, y: &f64| a[0] + a[1]*x + a[2]*y"

    def real(key, expr, args, rhs):
        return (call("obj:" + key, args), rhs), {"obj:" + key: expr}
    PQ = [p, q, r]
    cl, sn = real("i1", "polymers::math::integrate_1d(%s, &a[3], &a[4], &(a[5] as u128))" % R1, PQ + [a, b, N], midpoint1(cub))
    ob("integrate_1d", "", "the midpoint rule over equal cells, for any integrand", lambda: (ctx.code("math::integrate_1d", [sym_fn("integrand", 1), a, b, n]), midpoint1(f1)), cl, sn)
    cl, sn = real("a1", "polymers::math::integrate_1d(%s, &a[2], &a[3], &(a[4] as u128))" % L1, [p, q, a, b, N],
                  add(mul(p, sub(b, a)), mul(mul(HALF, q), sub(powi(b, iconst(2)), powi(a, iconst(2))))))
    exact = add(mul(p, sub(b, a)), div(mul(q, sub(powi(b, iconst(2)), powi(a, iconst(2)))), const(2)))

    def affine():
        l, s = ctx.code("math::integrate_1d", [poly_fn([p, q]), a, b, n]), midpoint1(lambda x: add(p, mul(q, x)))
        return Corollary(l, s, pos, lambda t: "%s = %s" % (t(l), t(exact)), None,
                         lambda t: "exact hB.trans (PV.midpoint_affine %s req0)" % " ".join(t(x) for x in (p, q, a, b, n)))
    obs.append(Ob("math.integrate_1d.affine", "math::integrate_1d", "exact for affine integrands", [affine], claim=cl, snippets=sn, opts=NP))

    def error():
        l, s = ctx.code("math::integrate_1d", [sym_fn("integrand", 1), a, b, n]), midpoint1(f1)
        M = "M_"
        return Corollary(l, s, pos, lambda t: "|%s - ∫ x_ in (%s)..(%s), %s x_| ≤ M_ * (%s - %s) ^ 3 / (24 * (%s : ℝ) ^ 2)" % (t(l), t(a), t(b), head(t), t(b), t(a), t(n)),
                         lambda t: (t(l), ["(slope_ : ℝ → ℝ) (M_ : ℝ)", "(hab : %s ≤ %s)" % (t(a), t(b)),
                                    "(hi : IntervalIntegrable %s MeasureTheory.volume %s %s)" % (head(t), t(a), t(b)),
                                    "(hq : ∀ m x : ℝ, {0} ≤ m → m ≤ {1} → {0} ≤ x → x ≤ {1} → |{2} x - {2} m - slope_ m * (x - m)| ≤ M_ / 2 * (x - m) ^ 2)".format(t(a), t(b), head(t))])[1],
                         lambda t: "rw [hB]; exact PV.midpoint_error %s slope_ %s %s M_ %s req0 hab hi hq" % (head(t), t(a), t(b), t(n)))

    def head(t):
        z = call("integrand", [var("x_min")])
        s = t(z).strip("()")
        return s.split()[0]
    obs.append(Ob("math.integrate_1d.error", "math::integrate_1d", "the error is at most (b-a)^3 M / (24 n^2) for integrands with second derivative bounded by M", [error], opts=NP))
    cl, sn = real("i2", "polymers::math::integrate_2d(%s, &a[3], &a[4], &a[5], &a[6], a[7] as u128)" % R2, PQ + [a, b, c, d, N], midpoint2(cub, c, d))
    ob("integrate_2d", "", "the midpoint rule over equal cells in both directions, for any integrand",
       lambda: (ctx.code("math::integrate_2d", [sym_fn("integrand", 2), a, b, c, d, n]), midpoint2(f1, c, d)), cl, sn, opts=NP2)
    cl, sn = real("i2s", "polymers::math::integrate_2d_symmetric(%s, &a[3], &a[4], a[5] as u128)" % R2, PQ + [a, b, N], midpoint2(cub, a, b))
    ob("integrate_2d_symmetric", "", "the midpoint rule with the same cells in both directions, for any integrand",
       lambda: (ctx.code("math::integrate_2d_symmetric", [sym_fn("integrand", 2), a, b, n]), midpoint2(f1, a, b)), cl, sn, opts=NP2)
    w = var("cell")
    m1, m2 = var("grid_x_len", "Z"), var("grid_y_len", "Z")
    g0, g1, g2, g3 = var("g0"), var("g1"), var("g2"), var("g3")
    gx, gy = (lambda k: call("grid_x", [i2r(k)])), (lambda k: call("grid_y", [i2r(k)]))
    lx, ly = (lambda k: add(g0, mul(g1, i2r(k)))), (lambda k: add(g2, mul(g3, i2r(k))))
    rng1 = {"probe": [{"grid_x_len": 70000}]}
    rng = {"probe": [{"grid_x_len": 270, "grid_y_len": 260}]}
    nn = [le(iconst(0), m1), le(iconst(0), m2)]

    def grid1(F, X):
        k = fresh("k", "Z")
        return mul(bsum(m1, k, F(X(k))), w)

    def grid2(F, X, Y, m):
        i, j = fresh("i", "Z"), fresh("j", "Z")
        return mul(bsum(m1, i, bsum(m, j, F(X(i), Y(j)))), w)
    vec = lambda l, u, v: "(0..(%s as usize)).map(|k| %s + %s*(k as f64)).collect::<Vec<f64>>()" % (l, u, v)
    cl, sn = real("g1", "polymers::math::integrate_1d_grid(%s, &%s, &a[6])" % (R1, vec("a[3]", "a[4]", "a[5]")), PQ + [i2r(m1), g0, g1, w], grid1(cub, lx))
    ob("integrate_1d_grid", "", "the sum of the integrand over every grid point times the cell size", lambda: (
        ctx.code("math::integrate_1d_grid", [sym_fn("integrand", 1), sym_slice("grid_x", m1), w]), grid1(f1, gx)), cl, sn, nn, rng1)
    cl, sn = real("g2", "polymers::math::integrate_2d_grid(%s, &%s, &%s, &a[9])" % (R2, vec("a[3]", "a[4]", "a[5]"), vec("a[6]", "a[7]", "a[8]")),
                  PQ + [i2r(m1), g0, g1, i2r(m2), g2, g3, w], grid2(cub, lx, ly, m2))
    ob("integrate_2d_grid", "", "the sum of the integrand over every pair of grid points times the cell size", lambda: (
        ctx.code("math::integrate_2d_grid", [sym_fn("integrand", 2), sym_slice("grid_x", m1), sym_slice("grid_y", m2), w]), grid2(f1, gx, gy, m2)), cl, sn, nn, rng)
    cl, sn = real("g2s", "polymers::math::integrate_2d_symmetric_grid(%s, &%s, &a[6])" % (R2, vec("a[3]", "a[4]", "a[5]")), PQ + [i2r(m1), g0, g1, w], grid2(cub, lx, lx, m1))
    ob("integrate_2d_symmetric_grid", "", "the sum of the integrand over every pair of points of the grid times the cell size", lambda: (
        ctx.code("math::integrate_2d_symmetric_grid", [sym_fn("integrand", 2), sym_slice("grid_x", m1), w]), grid2(f1, gx, gx, m1)), cl, sn, nn, rng)
    return obs
