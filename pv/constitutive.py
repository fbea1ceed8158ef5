"""The constitutive models (C17): network averages of single-chain quantities."""
from fractions import Fraction
from .core import *
from .engine import Ob
from .symex import Exec, SeqV, ListV, V, Unsupported

H = "constitutive::hyperelastic::buche_silberstein"
D = "constitutive::hyperelastic_damage::buche_silberstein"
PUB_H, PUB_D = "constitutive::hyperelastic", "constitutive::hyperelastic_damage"     # where the types are exported
EFJC = "physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::"
FORCE, ENERGY = EFJC + "nondimensional_force", EFJC + "nondimensional_relative_helmholtz_free_energy"
Q = lambda a, b=1: const(Fraction(a, b))
PI = fn("pi")

ORACLE = r'''{
    let (k, n) = (a[0], a[1] as u8);
    let pi = std::f64::consts::PI;
    let (damage, l, mx, j, crit): (bool, f64, f64, f64, f64) = (%(damage)s, %(l)s, %(mx)s, %(j)s, %(crit)s);
    let m = 256usize;
    let (mut g, mut v) = (Vec::new(), Vec::new());
    for i in 0..m {
        if damage { g.push(crit*((i + 1) as f64)/(m as f64)); v.push(crit/(m as f64)); }
        else { let w: f64 = ((i + 1) as f64)/((m + 1) as f64); g.push(w.atanh()); v.push(1.0/((m + 1) as f64)/(1.0 - w*w)); }
    }
    let c = 1.5*(n as f64)*k*(k + 1.0)/(k*k + 6.0*k + 3.0);
    let p = |x: f64| if %(m)d == 2 { (-polymers::%(energy)s(&n, &k, &x)).exp() } else { (-c*x*x).exp() };
    let mut z = 0.0;
    for i in 0..m { z += 4.0*pi*g[i]*g[i]*p(g[i])*v[i]; }
    let (mut s, mut t) = (0.0, 0.0);
    for i in 0..m { for q in 0..m {
        let (x, r) = (g[i], g[q]);
        if damage && ((x*mx/l).powi(2) + l/mx*r*r).sqrt() > crit { continue; }
        let d = p(((x/l).powi(2) + l*r*r).sqrt()/j.powf(1.0/3.0))/(j*z)*v[i]*v[q];
        let y = (x*x + r*r).sqrt();
        s += polymers::%(force)s(&k, &y)*(2.0*x*x - r*r)/y*2.0*pi*(n as f64)*r*d/j;
        t += 4.0*pi*r*d;
    } }
    if %(out)d == 0 { s } else { t }
}'''


def oracle(m, damage, out=0, l="a[2]", mx="1.0", j="1.0", crit="1.0"):
    return ORACLE % {"damage": "true" if damage else "false", "l": l, "mx": mx, "j": j, "crit": crit, "m": m, "out": out,
                     "energy": ENERGY, "force": FORCE}


def reader(ctx):
    """chain quantities stay symbols; the number of grid points is arbitrary"""
    ex = Exec(ctx.crate, lambda g: (lambda ex, g, a, st: opaque(ex, g, a, st)) if g.path in (FORCE, ENERGY) else None)
    for p in (H, D):
        ex.sym_consts[p + "::NUMGRID"] = var("NUMGRID", "Z")
    return ex


def member(ctx, path, name):
    m = ctx.crate.modules.get(path)
    if m is None or name not in m.impls.get("BucheSilberstein", {}):
        raise LostAnchor("%s::BucheSilberstein::%s" % (path, name))
    return m.impls["BucheSilberstein"][name]


def run(ctx, calls):
    ex = reader(ctx)
    r = calls(ex)
    for k, n in ex.inlined.items():
        USED[k] = USED.get(k, 0) + n
    OBLS.extend(ex.obls)
    return r


def c17(ctx):
    obs = []
    k, n, m_ = var("nondimensional_link_stiffness"), var("number_of_links", "Z"), var("NUMGRID", "Z")
    lam_, mx, J, crit = var("stretch"), var("maximum_previous_stretch"), var("swelling_ratio"), var("nondimensional_critical_extension")
    num = i2r(m_)
    pos = [lt(ZERO, k), le(iconst(2), n), le(n, iconst(255)), le(iconst(2), m_)]
    OPT = {"ranges": {"NUMGRID": (2, 5), "stretch": (1.02, 2.6), "swelling_ratio": (1.0, 2.5), "nondimensional_critical_extension": (0.6, 1.6),
                      "maximum_previous_stretch": (1.0, 3.0), "i": (0, 3), "s0": (1.0, 3.0), "s1": (1.0, 3.0), "s2": (1.0, 3.0), "const_generic_L": (4, 6)},
           "real_n": 60, "rel": True, "bounded_ok": "sums of unfolded distributions"}

    def gauss():
        """chain stiffness of the Gaussian distribution: that of the extensible chain near zero extension"""
        return mul(Q(3, 2), div(mul(mul(i2r(n), k), add(k, ONE)), add(add(powi(k, iconst(2)), mul(const(6), k)), const(3))))

    def weight(m):
        """exp(-energy/kT) of the equilibrium distribution at a length per link"""
        if m == 2:
            return lambda g, g2: div(ONE, fn("exp", call(ENERGY, [n, k, g])))
        return lambda g, g2: div(ONE, fn("exp", mul(gauss(), g2)))

    def spec(m, lam_, grid, vol, J=ONE, intact=None):
        """(stress, total probability): averages over the distribution carried along by the deformation and normalized on the grid"""
        P = weight(m)
        a = fresh("a", "Z")
        Z = bsum(m_, a, mul(mul(mul(const(4), PI), mul(powi(grid(a), iconst(2)), P(grid(a), powi(grid(a), iconst(2))))), vol(a)))
        i, j = fresh("i", "Z"), fresh("j", "Z")
        z, r = grid(i), grid(j)
        back2 = add(powi(div(z, lam_), iconst(2)), mul(lam_, powi(r, iconst(2))))
        back = fn("sqrt", back2)
        if J is not ONE:
            back, back2 = div(back, powf(J, Q(1, 3))), div(back2, powi(powf(J, Q(1, 3)), iconst(2)))
        dens = mul(P(back, back2), mul(vol(i), vol(j)))     # before normalization
        if intact is not None:
            dens = mul(dens, ite(intact(z, r), ONE, ZERO))
        y = fn("sqrt", add(powi(z, iconst(2)), powi(r, iconst(2))))
        f = mul(mul(mul(const(2), PI), mul(i2r(n), r)), div(mul(call(FORCE, [k, y]), sub(mul(const(2), powi(z, iconst(2))), powi(r, iconst(2)))), y))
        norm = mul(J, Z)
        stress = div(div(bsum(m_, i, bsum(m_, j, mul(f, dens))), norm), J)
        total = div(bsum(m_, i, bsum(m_, j, mul(mul(mul(const(4), PI), r), dens))), norm)
        return stress, total

    # hyperelastic
    w = lambda i: div(add(i2r(i), ONE), add(num, ONE))
    hgrid = lambda i: fn("atanh", w(i))
    hvol = lambda i: div(div(ONE, add(num, ONE)), sub(ONE, powi(w(i), iconst(2))))

    def hyper(m, name, stretch):
        def calls(ex):
            obj = ex.run(member(ctx, H, "init"), [V(iconst(m), "u8"), V(k, "f64"), V(n, "u8")])
            return ex.run(member(ctx, H, name), [obj, V(stretch, "f64")]).e
        return run(ctx, calls)
    RUST_H = "polymers::%s::BucheSilberstein::init(%d, a[0], a[1] as u8).%s(&%s)"
    hp = pos + [lt(ZERO, lam_)]
    KN = [k, i2r(n)]
    for m in (2, 3):
        sn = {"obj:h%d" % m: RUST_H % (PUB_H, m, "uniaxial_tension", "a[2]"), "obj:hs%d" % m: oracle(m, False)}
        obs.append(Ob("hyperelastic.method%d.uniaxial_tension" % m, H + "::BucheSilberstein::uniaxial_tension",
                      "the stress is the chain force averaged over the normalized distribution carried along by the deformation",
                      [lambda m=m: (hyper(m, "uniaxial_tension", lam_), spec(m, lam_, hgrid, hvol)[0], hp)],
                      claim=(call("obj:h%d" % m, KN + [lam_]), call("obj:hs%d" % m, KN + [lam_])), snippets=sn, opts=OPT))
        inv2 = div(ONE, powi(lam_, iconst(2)))
        sn = {"obj:h%d" % m: sn["obj:h%d" % m], "obj:b%d" % m: RUST_H % (PUB_H, m, "equibiaxial_tension", "a[2]")}
        obs.append(Ob("hyperelastic.method%d.equibiaxial_tension" % m, H + "::BucheSilberstein::equibiaxial_tension",
                      "the equibiaxial stress is minus the uniaxial stress at the stretch of the thickness direction",
                      [lambda m=m, inv2=inv2: (hyper(m, "equibiaxial_tension", lam_), neg(hyper(m, "uniaxial_tension", inv2)), hp)],
                      claim=(call("obj:b%d" % m, KN + [lam_]), neg(call("obj:h%d" % m, KN + [inv2]))), snippets=sn, opts=OPT))

    # damage
    dgrid = lambda i: div(mul(crit, add(i2r(i), ONE)), num)
    dvol = lambda i: div(crit, num)
    dp = pos + [lt(ZERO, crit), lt(ZERO, J)]

    def intact(lam_, mx):
        return lambda z, r: le(fn("sqrt", add(powi(div(mul(z, mx), lam_), iconst(2)), mul(div(lam_, mx), powi(r, iconst(2))))), crit)

    def damaged(m, ex):
        return ex.run(member(ctx, D, "init"), [V(iconst(m), "u8"), V(crit, "f64"), V(k, "f64"), V(n, "u8"), V(J, "f64")])
    RUST_D = "polymers::%s::BucheSilberstein::init(%d, a[5], a[0], a[1] as u8, a[4]).uniaxial_tension::<%d>(&[%s])[%d][%d]"
    hist = lambda q: call("stretch_history", [i2r(q)])
    s = [var("s0"), var("s1"), var("s2")]

    def running_max(q):
        """one or the largest stretch up to step q, whichever is larger"""
        kk, u = fresh("k", "Z"), fresh("u")
        st = ite(lt(u, hist(kk)), hist(kk), u)
        p = mk("loop", [q, ONE, lam([kk, u], TRUE), lam([kk, u], st)], ("for", 1, 0), "R")
        return ite(lt(p, hist(q)), hist(q), p)
    q = var("i", "Z")

    def top(xs):
        e = ONE
        for x in xs:
            e = ite(lt(e, x), x, e)
        return e
    for m in (2, 3):
        for o, what in ((0, "Cauchy stress"), (1, "total probability")):
            def one(m=m, o=o):
                """a history of one step"""
                def calls(ex):
                    r = ex.run(member(ctx, D, "uniaxial_tension"), [damaged(m, ex), SeqV(iconst(1), lambda i: V(lam_, "f64"))])
                    return r.f(iconst(0))
                r = run(ctx, calls)
                x = r.items[o].e
                mx1 = ite(lt(ONE, lam_), lam_, ONE)
                e = spec(m, lam_, dgrid, dvol, J, intact(lam_, mx1))[o]
                return x, e, dp + [le(ONE, lam_)]

            def history(m=m, o=o):
                def calls(ex):
                    r = ex.run(member(ctx, D, "uniaxial_tension"), [damaged(m, ex), SeqV(var("const_generic_L", "Z"), lambda i: V(hist(i), "f64"))])
                    return r.f(q)
                x = run(ctx, calls).items[o].e
                e = spec(m, hist(q), dgrid, dvol, J, intact(hist(q), running_max(q)))[o]
                return x, e, dp + [le(iconst(0), q), lt(ZERO, hist(q))]
            A = [k, i2r(n), lam_, top([lam_]), J, crit]
            tag = "%d%d" % (m, o)
            ds = oracle(m, True, o, "a[2]", "a[3]", "a[4]", "a[5]")
            sn = {"obj:d" + tag: RUST_D % (PUB_D, m, 1, "a[2]", 0, o), "obj:ds" + tag: ds}
            obs.append(Ob("damage.method%d.step.%d" % (m, o), D + "::uniaxial_tension",
                          "the %s is the average over the chains not yet broken, of the normalized distribution carried along by deformation and swelling" % what,
                          [one], claim=(call("obj:d" + tag, A), call("obj:ds" + tag, A)), snippets=sn, opts=OPT))
            B = [k, i2r(n)] + [s[2], top(s), J, crit]
            sn = {"obj:dh" + tag: RUST_D % (PUB_D, m, 3, "a[6], a[7], a[2]", 2, o), "obj:ds" + tag: ds}
            obs.append(Ob("damage.method%d.history.%d" % (m, o), D + "::BucheSilberstein::uniaxial_tension",
                          "the %s depends on the history only through the largest stretch so far, which decides the chains that are broken" % what,
                          [history], claim=(call("obj:dh" + tag, B + s[:2]), call("obj:ds" + tag, B)), snippets=sn, opts=OPT))
    return obs

