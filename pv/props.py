"""The properties: enumeration of contract clauses over the functions found in the source now."""
from fractions import Fraction
from .core import *
from .engine import Ob, HEADER
from . import sample
from .api import c08, c09
from .mathprops import c11
from .constitutive import c17
from .pyapi import c10, end_to_end
from .roots import c12, HEADER as HEADER_N
from .montecarlo import c15, HEADER as HEADER_M
from .special import c13, c14, HEADER_E, HEADER_B

kB = var("BOLTZMANN_CONSTANT")
hP = var("PLANCK_CONSTANT")
SC = "physics::single_chain::"


def chain_modules(ctx):
    """modules of free functions of the single-chain models (not the wrappers)"""
    for mn, m in sorted(ctx.crate.modules.items()):
        if not mn.startswith(SC) or m.file.endswith(("ex.rs", "py.rs")) or "monte_carlo" in mn or not m.fns:
            continue
        yield mn, m


def short(p):
    return p.replace(SC, "").replace("thermodynamics::", "").replace("::", ".")


def params(ctx, f):
    return dict(zip(f.param_names(), ctx.args_of(f.path)))


_others = {}


def others(ctx, mn):
    """functions of the other chain modules"""
    if mn not in _others:
        _others[mn] = frozenset(f.path for n, m in chain_modules(ctx) if n != mn for f in m.fns.values())
    return _others[mn]


# --- C01 ----------------------------------------------------------------------------------------

def nd_args(P, g):
    """arguments of the nondimensional function g from the dimensional parameters P"""
    N = P.get("number_of_links", var("number_of_links", "Z"))
    b = P.get("link_length", var("link_length"))
    T = P.get("temperature", var("temperature"))
    kT = mul(kB, T)
    Nb = mul(i2r(N), b)
    nd = {
        "nondimensional_force": lambda: div(mul(P["force"], b), kT),
        "nondimensional_end_to_end_length_per_link": lambda: div(P["end_to_end_length"], Nb),
        "nondimensional_link_stiffness": lambda: div(mul(P["link_stiffness"], powi(b, iconst(2))), kT),
        "nondimensional_link_energy": lambda: div(P["link_energy"], kT),
        "nondimensional_persistance_length": lambda: div(P["persistance_length"], Nb),
        "nondimensional_potential_distance": lambda: div(P["potential_distance"], Nb),
        "nondimensional_potential_stiffness": lambda: div(mul(P["potential_stiffness"], powi(b, iconst(2))), kT),
        "temperature": lambda: T, "number_of_links": lambda: N, "link_length": lambda: b,
    }
    out = []
    for n in g.param_names():
        if n in P:
            out.append(P[n])
        elif n in nd:
            out.append(nd[n]())
        else:
            raise LostAnchor("parameter %s of %s" % (n, g.path))
    return out, N, b, T, kT, Nb


def c01(ctx):
    obs = []
    for mn, m in chain_modules(ctx):
        for name, f in sorted(m.fns.items()):
            if name.startswith("nondimensional_") or "nondimensional_" + name not in m.fns:
                continue
            g = m.fns["nondimensional_" + name]
            P = params(ctx, f)
            args, N, b, T, kT, Nb = nd_args(P, g)
            if name == "force":
                s, st = div(kT, b), "k_B T / b"
            elif name.startswith("end_to_end_length"):
                s, st = b, "b"
            elif "energy" in name:
                s, st = kT, "k_B T"
            elif name == "equilibrium_distribution":
                s, st = div(ONE, powi(Nb, iconst(3))), "1/(N b)^3"
            elif name == "equilibrium_radial_distribution":
                s, st = div(ONE, Nb), "1/(N b)"
            else:
                continue

            def alt1(f=f, g=g, P=P, args=args, s=s):
                return ctx.code(f.path, list(P.values()), opq=[g.path]), mul(s, call(g.path, args))

            def alt2(f=f, g=g, P=P, args=args, s=s):
                return ctx.code(f.path, list(P.values())), mul(s, ctx.code(g.path, args))
            obs.append(Ob(short(f.path), f.path, "%s = %s * nondimensional_%s(scaled arguments)" % (name, st, name), [alt1, alt2],
                          rhs_fns=[g.path], claim=(call(f.path, list(P.values())), mul(s, call(g.path, args)))))
    return obs


# --- C02 ----------------------------------------------------------------------------------------

def call_args(P, g, extra=None):
    """arguments for g taken by name from P; names g has and P has not become free symbols"""
    out = []
    for p, n in zip(g.params, g.param_names()):
        if extra and n in extra:
            out.append(extra[n])
        elif n in P:
            out.append(P[n])
        else:
            ty = p["ty"].replace("&", "").strip()
            out.append(var(n, "R" if ty == "f64" else "Z"))
    return out


def c02(ctx):
    obs = []
    for mn, m in chain_modules(ctx):
        for name, g in sorted(m.fns.items()):
            if not name.endswith("_per_link"):
                continue
            f = m.fns.get(name[:-len("_per_link")])
            if f is None or g.param_names() == ["nondimensional_end_to_end_length_per_link"] and f.param_names() != g.param_names():
                continue
            P = params(ctx, f)
            args = call_args(P, g)
            N = P.get("number_of_links", var("number_of_links", "Z"))

            def alt1(f=f, g=g, P=P, args=args, N=N):
                return ctx.code(f.path, list(P.values()), opq=[g.path]), mul(i2r(N), call(g.path, args))

            def alt2(f=f, g=g, P=P, args=args, N=N, o=others(ctx, mn)):
                return ctx.code(f.path, list(P.values()), opq=o), mul(i2r(N), ctx.code(g.path, args, opq=o))

            def alt3(f=f, g=g, P=P, args=args, N=N):
                return ctx.code(f.path, list(P.values())), mul(i2r(N), ctx.code(g.path, args))
            obs.append(Ob(short(f.path), f.path, "%s = number_of_links * %s" % (f.name, g.name), [alt1, alt2, alt3],
                          rhs_fns=[g.path], claim=(call(f.path, list(P.values())), mul(i2r(N), call(g.path, args)))))
    return obs


# --- C03 ----------------------------------------------------------------------------------------

POSITIONS = ["nondimensional_force", "force", "nondimensional_end_to_end_length_per_link", "end_to_end_length",
             "nondimensional_potential_distance", "potential_distance"]


def zero_of(ctx):
    m = ctx.crate.modules["physics::single_chain"]
    return Exec(ctx.crate).const_value(m, m.consts["ZERO"]).e


def c03(ctx):
    obs = []
    Z = zero_of(ctx)
    for mn, m in chain_modules(ctx):
        for name, f in sorted(m.fns.items()):
            if "relative_" not in name:
                continue
            g = m.fns.get(name.replace("relative_", "", 1))
            if g is None:
                continue
            P = params(ctx, f)
            pos = [p for p in POSITIONS if p in P]
            if not pos:
                continue
            pos = pos[0]
            N = P.get("number_of_links", var("number_of_links", "Z"))
            b = P.get("link_length", var("link_length"))
            T = P.get("temperature", var("temperature"))
            if pos.startswith("nondimensional"):
                ref = Z
            elif pos == "force":
                ref = div(mul(Z, mul(kB, T)), b)
            else:
                ref = mul(mul(Z, i2r(N)), b)
            a1 = call_args(P, g)
            a2 = call_args(P, g, {pos: ref})

            def alt1(f=f, g=g, P=P, a1=a1, a2=a2):
                return ctx.code(f.path, list(P.values()), opq=[g.path]), sub(call(g.path, a1), call(g.path, a2))

            def alt2(f=f, g=g, P=P, a1=a1, a2=a2):
                return ctx.code(f.path, list(P.values())), sub(ctx.code(g.path, a1), ctx.code(g.path, a2))
            y = var("other_" + pos)
            P2 = dict(P)
            P2[pos] = y
            b2 = call_args(P, g, {pos: y})

            def alt3(f=f, g=g, P=P, P2=P2, a1=a1, b2=b2):
                return sub(ctx.code(f.path, list(P.values())), ctx.code(f.path, list(P2.values()))), sub(ctx.code(g.path, a1), ctx.code(g.path, b2))
            obs.append(Ob(short(f.path), f.path, "%s differs from %s by a term that does not depend on the state" % (f.name, g.name),
                          [alt1, alt2, alt3], rhs_fns=[g.path],
                          claim=(sub(call(f.path, list(P.values())), call(f.path, list(P2.values()))), sub(call(g.path, a1), call(g.path, b2)))))
            anchor(ctx, obs, mn, f, P, pos, ref)
    return obs


def anchor(ctx, obs, mn, f, P, pos, ref):
    """value of the relative function at its reference, which fixes the additive term"""
    where = short(f.path)
    P3, P4 = dict(P), dict(P)
    P3[pos], P4[pos] = ref, ZERO
    if where.startswith("fjc.") and (".isotensional." in where or where.startswith("fjc.isometric.legendre") and "helmholtz" in f.name):
        # closed forms, undefined at zero: stated for every force
        if not (f.name.startswith("nondimensional_") and f.name.endswith("_per_link")):
            return
        if "isotensional" in where:
            eta = P[pos]
        else:
            eta = call("math::inverse_langevin", [P[pos]])
        phi = neg(fn("ln", div(fn("sinh", eta), eta)))
        if "helmholtz" in f.name:
            if "isotensional" in where:
                phi = add(phi, sub(div(eta, fn("tanh", eta)), ONE))
            else:
                phi = add(phi, mul(eta, P[pos]))

        def anc0(f=f, P=P, phi=phi):
            return ctx.code(f.path, list(P.values())), phi
        obs.append(Ob(where + ".reference", f.path, "%s is the closed form that vanishes with the force" % f.name, [anc0],
                      claim=(call(f.path, list(P.values())), phi) if "isotensional" in where else None))
        return
    if where.startswith("fjc.modified_canonical") and "gibbs" in f.name and "asymptotic" not in where:
        return    # relative Helmholtz minus the potential's energy: small but not zero at the reference
    if where.startswith("wlc.isotensional") and not f.name.startswith("nondimensional_"):
        return

    def anc1(f=f, P3=P3):
        return ctx.code(f.path, list(P3.values())), ZERO

    def anc2(f=f, P4=P4):
        return ctx.code(f.path, list(P4.values())), ZERO
    obs.append(Ob(where + ".reference", f.path, "%s is zero at the reference" % f.name, [anc1, anc2]))


# --- C04, C05 ---------------------------------------------------------------------------------------

def unfolded(ctx, path, args):
    """the code with the numerical integration unfolded; root finders and special functions stay symbols"""
    return ctx.code(path, args, opq=[p for p in MATH_BOUNDARY if "integrate" not in p], math=False)


def separated(ctx, mn, f, P, x, g, scale, hi=None):
    """conjugacy with the functions of the other modules kept as symbols: an absolute energy is its relative energy plus a
    term that does not depend on the state (C03), and the relative energy is differentiable"""
    from .deriv import Conj, Smooth, map_calls, prune, scaled
    A, B = list(P.values()), call_args(P, g)
    o = list(others(ctx, mn)) + [p for p in MATH_BOUNDARY if "integrate" not in p]
    con = {}

    def rel(e):
        if not e.x.startswith(SC) or e.x.rsplit("::", 1)[0] == mn:
            return None
        h = ctx.crate.fn(e.x)
        if "free_energy" not in h.name:
            return None
        m = ctx.crate.modules[e.x.rsplit("::", 1)[0]]
        if "relative_" in h.name:
            r, k, ra = h, None, list(e.args)
        else:
            for n in (h.name.replace("nondimensional_", "nondimensional_relative_"), "relative_" + h.name):
                if n in m.fns:
                    r = m.fns[n]
                    break
            else:
                return None
            pn = h.param_names()
            if not set(r.param_names()) <= set(pn):
                return None
            ra = [e.args[pn.index(q)] for q in r.param_names()]
            k = var("offset_%s" % "_".join(str(a.id) for q, a in zip(pn, e.args) if q not in POSITIONS))
        at = [i for i, q in enumerate(r.param_names()) if q in POSITIONS]
        if len(at) != 1:
            return None
        con[r.path] = Smooth(r.path, at[0])
        c = call(r.path, ra)
        return c if k is None else add(c, k)
    phi, y = [map_calls(ctx.code(p.path, a, opq=o, math=False), rel) for p, a in ((f, A), (g, B))]
    if hi is not None:
        phi, y = prune(phi, x, hi), prune(y, x, hi)
    rhs = scaled(scale, y)
    reqs = sample.requires_of(set(free_vars(phi)) | set(free_vars(rhs)) | {x})
    for q in [lt(ZERO, x)] + ([lt(x, const(hi))] if hi is not None else []):
        if q not in reqs:
            reqs.append(q)
    return Conj(phi, rhs, x, reqs, con)


def slope(ctx, f, P, x, g, scale, clause, callees=(), opts=None, first=(), lo=None):
    """obligation: the derivative of f by x is scale * g (where lo < x); callees: contracts of functions f and g may call"""
    from .deriv import Conj, prune, scaled
    A, B = list(P.values()), call_args(P, g)

    def finish(phi, y, con):
        if lo is not None:
            phi, y = prune(phi, x, lo=lo), prune(y, x, lo=lo)
        rhs = scaled(scale, y)
        vs = set(free_vars(phi)) | set(free_vars(rhs)) | {x}
        reqs = sample.requires_of(vs)
        q = lt(ZERO if lo is None else const(lo), x)
        if q not in reqs:
            reqs.append(q)
        return Conj(phi, rhs, x, reqs, con)

    def modular():
        con = {c.fn: c for c in callees if c.fn != f.path}
        o = [p for c in callees for p in (c.fn, c.g) if p not in (f.path, g.path)]
        phi = ctx.code(f.path, A, opq=o + [g.path])
        used = [con[n.x] for n in nodes(phi) if n.op == "call" and n.x in con]
        if not used:
            raise Unsupported("no callee with a contract")
        o = [c.g for c in used]
        y = call(g.path, B) if g.path in o else ctx.code(g.path, B, opq=o)
        return finish(phi, y, con)

    def whole():
        return finish(unfolded(ctx, f.path, A), unfolded(ctx, g.path, B), None)
    y = call(g.path, B)
    real = mk("deriv", (call(f.path, A),), x.x), scaled(scale, y)
    return Ob(short(f.path), f.path, clause, list(first) + ([modular, whole] if callees else [whole]), rhs_fns=[g.path], opts=dict({"rtol": 1e-3}, **(opts or {})), claim=real)


def callee(f, g, state, scale, lo=None, hi=None):
    """contract: the derivative of f by its parameter `state` is scale(arguments by name) * g"""
    from .deriv import Callee
    n = f.param_names()
    return Callee(f.path, n.index(state), g.path, [n.index(p) if p in n else free_param(g, p) for p in g.param_names()], lambda A: scale(dict(zip(n, A))), lo, hi)


def free_param(g, name):
    ty = dict(zip(g.param_names(), g.params))[name]["ty"].replace("&", "").strip()
    return var(name, "R" if ty == "f64" else "Z")


def conjugate(m, name, energy, kinematic):
    """the function of module m that should be the derivative of `name`"""
    return m.fns.get(name.replace("relative_", "").replace(energy, kinematic))


def c04(ctx):
    obs = []
    for mn, m in chain_modules(ctx):
        if "isotensional" not in mn:
            continue
        con = []
        for name, f in sorted(m.fns.items()):
            g = conjugate(m, name, "gibbs_free_energy", "end_to_end_length") if "gibbs_free_energy" in name else None
            if g is not None and name.startswith("nondimensional_") and "nondimensional_force" in f.param_names():
                con.append(callee(f, g, "nondimensional_force", lambda P: const(-1), hi=100 if ".wlc." in mn.replace("::", ".") and "legendre" not in mn else None))
        for name, f in sorted(m.fns.items()):
            if "gibbs_free_energy" not in name:
                continue
            gn = name.replace("relative_", "").replace("gibbs_free_energy", "end_to_end_length")
            g = m.fns.get(gn)
            if g is None:
                continue
            P = params(ctx, f)
            x = P.get("nondimensional_force", P.get("force"))
            if x is None:
                continue
            # a function may rest on the contracts of those it calls, never on its own
            own = [c for c in con if f.name.startswith("nondimensional_") is False or c.fn.endswith("_per_link") and not name.endswith("_per_link") or
                   "relative" in name and "relative" not in c.fn]
            first, opts = [], None
            if ".wlc." in mn.replace("::", ".") and "legendre" not in mn:
                # above a nondimensional force of 100 the code switches to an asymptotic form, which is not an exact potential
                opts = {"max_eta": 60, "ranges": {"nondimensional_force": lambda r: sample.logu(r, 0.05, 60)}}
                if x.x == "nondimensional_force":
                    first = [lambda mn=mn, f=f, P=P, x=x, g=g: separated(ctx, mn, f, P, x, g, const(-1), 100)]
            obs.append(slope(ctx, f, P, x, g, const(-1), "d %s / d %s = -%s" % (name, x.x, gn), own, opts, first))
    return obs


def c05_pair(m, name, f, P):
    """(state, conjugate function, scale as a function of the parameters, text)"""
    N = lambda P: i2r(P.get("number_of_links", var("number_of_links", "Z")))
    nd, per = name.startswith("nondimensional_"), name.endswith("_per_link")
    pre = "nondimensional_" if nd else ""
    if "helmholtz_free_energy" in name:
        xs = ["nondimensional_end_to_end_length_per_link", "nondimensional_potential_distance"] if nd else ["end_to_end_length", "potential_distance"]
        g = m.fns.get(pre + "force")
        if nd:
            sc, tx = ((lambda P: None), "") if per else ((lambda P: N(P)), "N ")
        else:
            sc, tx = ((lambda P: div(ONE, N(P))), "1/N ") if per else ((lambda P: None), "")
    else:
        xs = [pre + "potential_distance"]
        g = m.fns.get(pre + "end_to_end_length" + ("_per_link" if per else ""))
        w = pre + "potential_stiffness"
        if w not in P:
            return None
        if nd:
            sc, tx = (lambda P: neg(mul(N(P), P[w]))), "-N " + w + " "
        else:
            sc, tx = (lambda P: neg(P[w])), "-" + w + " "
    xs = [x for x in xs if x in P]
    if not xs or g is None:
        return None
    return xs[0], g, sc, tx


def c05(ctx):
    obs = []
    for mn, m in chain_modules(ctx):
        if "isotensional" in mn:
            continue
        pairs = {}
        for name, f in sorted(m.fns.items()):
            if "helmholtz_free_energy" in name or "gibbs_free_energy" in name and "modified_canonical" in mn:
                q = c05_pair(m, name, f, params(ctx, f))
                if q:
                    pairs[name] = (f,) + q
        # up to a length of 1e-3 the code uses the linear form of the force: exact only to leading order
        lo = Fraction(1, 1000) if "swfjc" in mn and mn.endswith("legendre") else None
        con = {n: callee(f, g, x, sc, lo if n.startswith("nondimensional_") else None) for n, (f, x, g, sc, tx) in pairs.items() if n.startswith("nondimensional_") or "helmholtz" in n}
        for name, (f, x, g, sc, tx) in pairs.items():
            P = params(ctx, f)
            own = [c for n, c in con.items() if rank(n) < rank(name)]
            first, opts = [], {}
            if name.startswith("nondimensional_") and "modified_canonical" in mn:
                first = [lambda mn=mn, f=f, P=P, x=P[x], g=g, sc=sc: separated(ctx, mn, f, P, x, g, sc(P))]
            if lo is not None:
                opts = {"min_gam": 1.1e-3}
            obs.append(slope(ctx, f, P, P[x], g, sc(P), "d %s / d %s = %s%s" % (name, x, tx, g.name), own, opts, first, lo if name.startswith("nondimensional_") else None))
    return obs


def rank(n):
    """order in which functions may rest on each other's contracts"""
    return (not n.startswith("nondimensional_"), "gibbs" in n, "relative" in n, not n.endswith("per_link"))


# --- C06 --------------------------------------------------------------------------------------------

def product(f, P, force, length):
    """force times length in the units of the energy f"""
    N = i2r(P.get("number_of_links", var("number_of_links", "Z")))
    nd, per = f.name.startswith("nondimensional_"), f.name.endswith("_per_link")
    e = mul(force, length)
    if nd:
        return e if per else mul(N, e)
    return div(e, N) if per else e


STATES = ("force", "end_to_end_length", "potential_distance")


def at_states(lhs, rhs):
    """an equation at positive states"""
    vs = set(free_vars(lhs)) | set(free_vars(rhs))
    reqs = sample.requires_of(vs)
    for v in sorted(vs, key=lambda v: v.x):
        q = lt(ZERO, v)
        if v.x.replace("other_", "").replace("nondimensional_", "").replace("_per_link", "") in STATES and q not in reqs:
            reqs.append(q)
    return lhs, rhs, reqs


def two_states(ctx, f, P, pos, rhs, what, claim, obs, first=None):
    """f and rhs(P) differ by a term that does not depend on the state P[pos]; first: (f, rhs) of P resting on contracts of callees"""
    P2 = dict(P)
    P2[pos] = var("other_" + pos)

    def modular():
        a, b = first(P), first(P2)
        return at_states(sub(a[0], b[0]), sub(a[1], b[1]))

    def alt():
        return at_states(sub(ctx.code(f.path, list(P.values())), ctx.code(f.path, list(P2.values()))), sub(rhs(P), rhs(P2)))
    obs.append(Ob(short(f.path), f.path, what, [modular, alt] if first else [alt], claim=claim and (sub(call(f.path, list(P.values())), call(f.path, list(P2.values()))), sub(claim(P), claim(P2)))))


def c06(ctx):
    obs = []
    mods = dict(chain_modules(ctx))
    for mn, m in mods.items():
        if mn.endswith("modified_canonical") or "modified_canonical::" in mn:
            c06_modified(ctx, mn, m, obs)
        if not mn.endswith("::legendre"):
            continue
        up = mn[:-len("::legendre")]
        for name, f in sorted(m.fns.items()):
            P = params(ctx, f)
            pre = "nondimensional_" if name.startswith("nondimensional_") else ""
            if "isotensional" in mn and "helmholtz_free_energy" in name:
                T, x, sg, other = mods[up], pre + "force", 1, "gibbs_free_energy"
                kin = name.replace("relative_", "").replace("helmholtz_free_energy", "end_to_end_length")
                tot = False
            elif "isometric" in mn and "gibbs_free_energy" in name and up in mods:
                T, x, sg, other = mods[up], pre + ("end_to_end_length_per_link" if pre else "end_to_end_length"), -1, "helmholtz_free_energy"
                kin, tot = pre + "force", True
            elif "isometric" in mn and "helmholtz_free_energy" in name:
                c06_inverse(ctx, mods, mn, m, name, f, P, pre, obs)
                continue
            else:
                continue
            e = T.fns.get(name.replace("helmholtz_free_energy" if sg > 0 else "gibbs_free_energy", other))
            k = T.fns.get(kin)
            if e is None or k is None or x not in P:
                continue

            def rhs(P, ev, f=f, e=e, k=k, x=x, sg=sg, tot=tot):
                w = mul(P[x], ev(k, P))
                if tot:
                    w = product(f, P, ev(k, P), P[x])
                return add(ev(e, P), w) if sg > 0 else sub(ev(e, P), w)
            what = "%s = %s %s force * length" % (name, e.name, "+" if sg > 0 else "-")
            # absolute energies of the module with their contracts; the call graph has no cycles, so callees' contracts may be used
            base = {}
            for n, B in m.fns.items():
                if ("helmholtz" if sg > 0 else "gibbs") + "_free_energy" in n and "relative" not in n and B is not f:
                    p = "nondimensional_" if n.startswith("nondimensional_") else ""
                    EB = T.fns.get(n.replace("helmholtz_free_energy" if sg > 0 else "gibbs_free_energy", other))
                    KB = T.fns.get(n.replace("helmholtz_free_energy", "end_to_end_length") if sg > 0 else p + "force")
                    if EB is not None and KB is not None:
                        base[B.path] = (B, EB, KB, p + ("force" if sg > 0 else "end_to_end_length_per_link" if p else "end_to_end_length"))

            def first(P, f=f, base=base, rhs=rhs, sg=sg, tot=tot):
                """resting on the contracts of the callees"""
                l = ctx.code(f.path, list(P.values()), opq=list(base))
                used = [p for p in base if any(n.op == "call" and n.x == p for n in nodes(l))]
                if not used:
                    raise Unsupported("no callee with a contract")
                o = [g.path for p in used for g in base[p][1:3]]
                at = lambda g, P: call(g.path, call_args(P, g)) if g.path in o else ctx.code(g.path, call_args(P, g), opq=o)
                for p in used:
                    B, EB, KB, s = base[p]

                    def build(a, B=B, EB=EB, KB=KB, s=s):
                        Q = dict(zip(B.param_names(), a))
                        k = call(KB.path, call_args(Q, KB))
                        w = product(B, Q, k, Q[s]) if tot else mul(Q[s], k)
                        b = call(EB.path, call_args(Q, EB))
                        return add(b, w) if sg > 0 else sub(b, w)
                    l = map_calls(l, p, build)
                return l, rhs(P, at)
            sym = lambda g, P: call(g.path, call_args(P, g))
            full = lambda g, P: ctx.code(g.path, call_args(P, g))
            if "relative_" in name:
                two_states(ctx, f, P, x, lambda P, rhs=rhs, full=full: rhs(P, full), what + " up to a constant", lambda P, rhs=rhs, sym=sym: rhs(P, sym), obs, first)
                continue

            def alt1(f=f, P=P, rhs=rhs, sym=sym, e=e, k=k):
                return at_states(ctx.code(f.path, list(P.values()), opq=[e.path, k.path]), rhs(P, sym))

            def alt2(f=f, P=P, rhs=rhs, full=full):
                return at_states(ctx.code(f.path, list(P.values())), rhs(P, full))
            obs.append(Ob(short(f.path), f.path, what, [alt1, alt2], rhs_fns=[e.path, k.path], claim=(call(f.path, list(P.values())), rhs(P, sym))))
    return obs


def c06_inverse(ctx, mods, mn, m, name, f, P, pre, obs):
    """isometric functions obtained from the isotensional ones: Helmholtz(length) = Gibbs(force) + force * length up to a constant,
    at the force where the isotensional length is the given one"""
    T = mods.get(mn[:-len("::legendre")].replace("isometric", "isotensional"))
    F = m.fns.get(pre + "force")
    if T is None or F is None:
        return
    g = T.fns.get(name.replace("helmholtz", "gibbs"))
    pos = [p for p in POSITIONS if p in P]
    if g is None or not pos:
        return
    pos = pos[0]

    def rhs(P, ev):
        w = ev(F, P, {})
        return add(ev(g, P, {pre + "force": w}), product(f, P, w, P[pos]))
    sym = lambda h, P, x: call(h.path, call_args(P, h, x))
    full = lambda h, P, x: ctx.code(h.path, call_args(P, h, x))
    base = {}
    for n, B in m.fns.items():
        if "helmholtz_free_energy" in n and "relative" not in n and B is not f and n.replace("helmholtz", "gibbs") in T.fns:
            p = "nondimensional_" if n.startswith("nondimensional_") else ""
            s = [q for q in POSITIONS if q in B.param_names()]
            if p + "force" in m.fns and s:
                base[B.path] = (B, T.fns[n.replace("helmholtz", "gibbs")], m.fns[p + "force"], s[0], p)

    def first(P):
        """resting on the contracts of the callees (up to a term without the state, which a difference of two states removes)"""
        l = ctx.code(f.path, list(P.values()), opq=list(base))
        used = [p for p in base if any(n.op == "call" and n.x == p for n in nodes(l))]
        if not used:
            raise Unsupported("no callee with a contract")
        o = [g.path for p in used for g in base[p][1:3]]
        at = lambda g, P, x: call(g.path, call_args(P, g, x)) if g.path in o else ctx.code(g.path, call_args(P, g, x), opq=o)
        for q in used:
            B, EB, KB, s, p = base[q]

            def build(a):
                Q = dict(zip(B.param_names(), a))
                w = call(KB.path, call_args(Q, KB))
                rest = call(q + "::constant", [x for n, x in Q.items() if n != s])
                return add(add(call(EB.path, call_args(Q, EB, {p + "force": w})), product(B, Q, w, Q[s])), rest)
            l = map_calls(l, q, build)
        return l, rhs(P, at)
    two_states(ctx, f, P, pos, lambda P: rhs(P, full), "%s = %s at the same state + force * length, up to a constant" % (name, g.name), lambda P: rhs(P, sym), obs, first)
    if name != "nondimensional_helmholtz_free_energy_per_link":
        return
    L = T.fns[pre + "end_to_end_length_per_link"] if pre else T.fns["end_to_end_length"]
    FP = params(ctx, F)

    def inv():
        from .deriv import Rooted, prune
        x = FP[pos]
        lo = Fraction(1, 1000)
        w = prune(unfolded(ctx, F.path, list(FP.values())), x, lo=lo) if pre else unfolded(ctx, F.path, list(FP.values()))
        l = unfolded(ctx, L.path, call_args(FP, L, {pre + "force": w}))
        reqs = sample.requires_of(set(free_vars(l)) | {x})
        if pre:
            reqs.append(lt(const(lo), x))
        return Rooted(l, x, x, reqs)
    obs.append(Ob(short(F.path), F.path, "%s at the returned force is the given length" % L.name, [inv], rhs_fns=[L.path], opts={"min_gam": 1.1e-3, "rtol": 1e-3},
                  claim=(call(L.path, call_args(FP, L, {pre + "force": call(F.path, list(FP.values()))})), FP[pos])))


def c06_modified(ctx, mn, m, obs):
    """the potential's energy is the difference of the two free energies of the modified canonical ensemble"""
    for name, f in sorted(m.fns.items()):
        if "gibbs_free_energy" not in name:
            continue
        g = m.fns.get(name.replace("gibbs", "helmholtz"))
        if g is None:
            continue
        P = params(ctx, f)
        pre = "nondimensional_" if name.startswith("nondimensional_") else ""
        d, w = pre + "potential_distance", pre + "potential_stiffness"
        if d not in P or w not in P:
            continue
        N = i2r(P.get("number_of_links", var("number_of_links", "Z")))
        e = mul(const(Fraction(1, 2)), mul(P[w], powi(P[d], iconst(2))))
        if pre:
            e = mul(N if name.endswith("_per_link") else powi(N, iconst(2)), e)
        elif name.endswith("_per_link"):
            e = div(e, N)

        def alt1(f=f, g=g, P=P, e=e):
            return ctx.code(f.path, list(P.values()), opq=[g.path]), sub(call(g.path, call_args(P, g)), e)

        def alt2(f=f, g=g, P=P, e=e):
            return ctx.code(f.path, list(P.values())), sub(ctx.code(g.path, call_args(P, g)), e)
        obs.append(Ob(short(f.path), f.path, "%s = %s - stiffness * distance^2 / 2" % (name, g.name), [alt1, alt2], rhs_fns=[g.path],
                      claim=(call(f.path, list(P.values())), sub(call(g.path, call_args(P, g)), e))))
    if "weak_potential" in mn:
        return      # the asymptotic force and length agree with this only to leading order
    for pre in ("", "nondimensional_"):
        f = m.fns.get(pre + "force")
        if f is None:
            continue
        P = params(ctx, f)
        d, w = pre + "potential_distance", pre + "potential_stiffness"
        for n in ("end_to_end_length", "end_to_end_length_per_link"):
            g = m.fns.get(pre + n)
            if g is None or d not in P or w not in P:
                continue
            N = i2r(P.get("number_of_links", var("number_of_links", "Z")))

            def rhs(l, P=P, d=d, w=w, N=N, pre=pre, n=n):
                if pre and n.endswith("per_link"):
                    return mul(mul(N, P[w]), sub(P[d], l))
                if pre:
                    return mul(P[w], sub(mul(N, P[d]), l))
                return mul(P[w], sub(P[d], mul(N, l) if n.endswith("per_link") else l))

            def alt1(f=f, g=g, P=P, rhs=rhs):
                return call(f.path, list(P.values())), rhs(ctx.code(g.path, call_args(P, g), opq=[f.path]))

            def alt2(f=f, g=g, P=P, rhs=rhs):
                return ctx.code(f.path, list(P.values())), rhs(ctx.code(g.path, call_args(P, g)))
            obs.append(Ob(short(f.path) + "." + n, f.path, "%s = stiffness * (distance - %s)" % (f.name, g.name), [alt1, alt2], rhs_fns=[g.path],
                          claim=(call(f.path, list(P.values())), rhs(call(g.path, call_args(P, g))))))


# --- C07 --------------------------------------------------------------------------------------------

def c07(ctx):
    obs = []
    four_pi = lambda x: mul(mul(const(4), fn("pi")), powi(x, iconst(2)))
    for mn, m in chain_modules(ctx):
        for pre in ("", "nondimensional_"):
            p, r = m.fns.get(pre + "equilibrium_distribution"), m.fns.get(pre + "equilibrium_radial_distribution")
            if p is None or r is None:
                continue
            x = pre + "end_to_end_length" + ("_per_link" if pre else "")
            P = params(ctx, r)
            if x not in P:
                continue

            def alt1(p=p, r=r, P=P, x=x):
                return ctx.code(r.path, list(P.values()), opq=[p.path]), mul(four_pi(P[x]), call(p.path, call_args(P, p)))

            def alt2(p=p, r=r, P=P, x=x, o=others(ctx, mn)):
                o = [q for q in o if q not in (p.path, r.path)]
                return ctx.code(r.path, list(P.values()), opq=o), mul(four_pi(P[x]), ctx.code(p.path, call_args(P, p), opq=o))

            def alt3(p=p, r=r, P=P, x=x):
                return ctx.code(r.path, list(P.values())), mul(four_pi(P[x]), ctx.code(p.path, call_args(P, p)))
            obs.append(Ob(short(r.path), r.path, "%s = 4 pi length^2 %s" % (r.name, p.name), [alt1, alt2, alt3], rhs_fns=[p.path],
                          claim=(call(r.path, list(P.values())), mul(four_pi(P[x]), call(p.path, call_args(P, p))))))
            for name, f in sorted(m.fns.items()):
                if "helmholtz_free_energy" not in name or name.startswith("nondimensional_") != bool(pre):
                    continue
                c07_boltzmann(ctx, obs, f, p, x, bool(pre))
    c07_normalized(ctx, obs)
    return obs


def positive_factors(*es):
    """requirements: the factors of the probabilities are positive, and so are the forces found by the inverse functions"""
    out = []

    def go(e):
        if e.op in ("mul", "div"):
            go(e.args[0])
            go(e.args[1])
        elif e.op in ("powi", "powf"):
            go(e.args[0])
        elif e.op == "ite":
            q = lt(ZERO, e)
            if q not in out:
                out.append(q)
        elif e.op not in ("const", "i2r", "iconst") and not (e.op == "fn" and e.x in ("exp", "pi", "cosh", "sinh")):
            q = lt(ZERO, e)
            if q not in out:
                out.append(q)
    for e in es:
        go(e)
        for n in nodes(e):
            if n.op == "call" and ("inverse" in n.x or n.x.endswith("::nondimensional_force")) and lt(ZERO, n) not in out:
                out.append(lt(ZERO, n))
    return out


def c07_boltzmann(ctx, obs, f, p, x, nd):
    """energies at two lengths differ by minus the logarithm of the ratio of the probabilities"""
    P = params(ctx, f)
    if x not in P:
        return
    Pp = dict(P)
    P2 = dict(P)
    P2[x] = var("other_" + x)
    N = i2r(P.get("number_of_links", var("number_of_links", "Z")))
    s = ONE if nd else mul(kB, P["temperature"])
    if f.name.endswith("_per_link"):
        s = div(s, N)

    def sides(ev):
        a, b = ev(f, P), ev(f, P2)
        u, v = ev(p, Pp), ev(p, P2)
        return a, b, u, v

    def pack(a, b, u, v):
        l, r = sub(a, b), mul(s, sub(fn("ln", v), fn("ln", u)))
        q = at_states(l, r)
        return q[0], q[1], q[2] + positive_factors(u, v)

    def alt1():
        ev = lambda g, P: call(p.path, call_args(P, p)) if g is p else ctx.code(g.path, call_args(P, g), opq=[p.path])
        return pack(*sides(ev))

    def alt2():
        fs = [f.path.rsplit("::", 1)[0] + "::nondimensional_force"]
        return pack(*sides(lambda g, P: ctx.code(g.path, call_args(P, g), opq=fs)))

    def alt3():
        return pack(*sides(lambda g, P: ctx.code(g.path, call_args(P, g))))
    a, b, u, v = sides(lambda g, P: call(g.path, call_args(P, g)))
    obs.append(Ob(short(f.path), f.path, "%s: the probability is proportional to exp(-Helmholtz free energy / k_B T)" % f.name, [alt1, alt2, alt3], rhs_fns=[p.path], opts={"rel": True},
                  claim=(sub(a, b), mul(s, sub(fn("ln", v), fn("ln", u))))))


def c07_normalized(ctx, obs):
    """the radial distribution an object answers with sums to one over the library's own quadrature nodes"""
    from .api import init_of, build, run_opq, rust_args
    from .symex import StructV, V
    for k, f in init_of(ctx).items():
        mn, t = k.rsplit("::", 1)
        m = ctx.crate.modules[mn]
        g = m.impls[t].get("nondimensional_equilibrium_radial_distribution")
        r = m.fns.get("nondimensional_equilibrium_radial_distribution")
        if g is None or r is None or "normalization_nondimensional_equilibrium_distribution" not in r.param_names():
            continue
        A = ctx.args_of(f.path)
        P = {a.x: a for a in A}
        n = iconst(64)
        a = zero_of(ctx)
        b = add(ONE, div(P["well_width"], P["link_length"])) if "well_width" in P else ONE
        h = div(sub(b, a), const(64))
        j = fresh("k", "Z")
        at = add(a, mul(add(const(Fraction(1, 2)), i2r(j)), h))

        p = m.fns["nondimensional_equilibrium_distribution"]
        norm = "normalization_nondimensional_equilibrium_distribution"

        def shape(a, p=p):
            Q = dict(zip(p.param_names(), a))
            return div(call(p.path + "::unnormalized", [y for z, y in Q.items() if z != norm]), Q[norm])

        def alt(opq, f=f, g=g, h=h, at=at, j=j, n=n, p=p, shape=shape):
            A, o = build(ctx, f, opq | {p.path})
            # for any normalization the object may hold the sum is (what its constructor stores) / (what it holds)
            c = o.fields[norm].e
            o.fields[norm] = V(var(norm), "f64")
            ob = run_opq(ctx, g, [o, V(at, "f64")], opq | {p.path})
            l = mul(bsum(n, j, map_calls(ob.e, p.path, shape)), h)
            r = div(map_calls(c, p.path, shape), var(norm))
            return l, r, sample.requires_of(set(free_vars(l)) | set(free_vars(r))) + [lt(ZERO, var(norm))]
        P2 = params(ctx, p)

        def scaled_alt(p=p, P2=P2):
            l = ctx.code(p.path, list(P2.values()))
            r = div(ctx.code(p.path, call_args(P2, p, {norm: ONE})), P2[norm])
            return l, r, sample.requires_of(set(free_vars(l)) | set(free_vars(r))) + [lt(ZERO, P2[norm])]
        obs.append(Ob(short(p.path) + ".scale", p.path, "the distribution is inversely proportional to its normalization", [scaled_alt],
                      claim=(call(p.path, list(P2.values())), div(call(p.path, call_args(P2, p, {norm: ONE})), P2[norm]))))
        key = "obj:" + k + ".normalized"
        w = "(1.0 + a[%d]/a[%d])" % ([x.x for x in A].index("well_width"), [x.x for x in A].index("link_length")) if "well_width" in P else "1.0"
        e = "{ let o = polymers::%s::init(%s); let (lo, hi) = (1e-6_f64, %s); let h = (hi - lo)/64.0; (0..64).map(|i| o.nondimensional_equilibrium_radial_distribution(&(lo + (0.5 + i as f64)*h))).sum::<f64>()*h }" % (k, rust_args(f), w)
        obs.append(Ob(short(g.path) + ".normalized", g.path, "the radial distribution of an object sums to one over the nodes of the library's quadrature",
                      [lambda alt=alt, o=frozenset([q for q in MATH_BOUNDARY if "integrate" not in q]): alt(o)], claim=(call(key, A), ONE), snippets={key: e}))


PROPERTIES = {
    "C07": {"obligations": c07, "assumptions": [
        "Boltzmann clause: at lengths where both probabilities have positive factors and the returned force is positive",
        "normalization clause: sum over the 64 nodes of the library's quadrature, for any normalization the object holds"]},
    "C06": {"obligations": c06, "assumptions": [
        "positive states only; the inverse functions and root finders return an exact root of their equation (reached by finitely many Newton steps, so to the tolerance of the root finder)",
        "Legendre-transformed square-well chain: nondimensional lengths above 1e-3 only (below, the code uses the linear form of the force)",
        "dimensional returned force: composition of the nondimensional clause with property C01"]},
    "C01": {"obligations": c01},
    "C02": {"obligations": c02},
    "C03": {"obligations": c03},
    "C04": {"obligations": c04, "assumptions": [
        "library contract: d erf(x)/dx = 2/sqrt(pi) exp(-x^2); lambert_w and the inverse functions satisfy their defining equation at the returned value (the roots are reached by finitely many Newton steps, so to the tolerance of the root finder)",
        "WLC: the relative Helmholtz free energy of the isometric ensemble is differentiable; absolute = relative + constant (property C03); only forces below the switch at 100 are covered"]},
    "C05": {"obligations": c05, "assumptions": [
        "library contracts: d erf(x)/dx = 2/sqrt(pi) exp(-x^2), d I0(x)/dx = I1(x); inverse_langevin and inverse_newton_raphson return a root of their equation that varies smoothly (the roots are reached by finitely many Newton steps, so to the tolerance of the root finder)",
        "a rounding of an input-dependent value (the number of terms of the Treloar sums) is locally constant: the states where it jumps are excluded",
        "Legendre-transformed square-well chain: nondimensional lengths above 1e-3 only (below, the code uses the linear form of the force)"]},
    "C08": {"obligations": c08},
    "C09": {"obligations": c09},
    "C10": {"obligations": c10, "harness": "PyHarness", "extra": end_to_end, "assumptions": [
        "pyo3 and numpy (PyModule, add_class, add_submodule, as_array, mapv, into_pyarray, from_vec) behave as documented: mapv acts element by element and keeps the shape",
        "damage model: histories of three stretches (the running maximum is carried by the loop; longer histories repeat the same step)"]},
    "C17": {"obligations": c17, "assumptions": [
        "number of grid points per direction: any number of at least two (the code's constant is one instance)",
        "the chain's force and free energy functions stay symbols here (their contracts are those of C03-C06)"]},
    "C11": {"obligations": c11, "lean": ("PV", "PVI"), "header": HEADER.replace("import PV", "import PVI")},
    "C15": {"obligations": c15, "lean": ("PV", "PVM"), "header": HEADER_M, "assumptions": [
        "the random draws are arbitrary: uniform draws anywhere in [0, 1), normal samples anywhere; the generator's distributions themselves are trusted",
        "freely rotating chains: the auxiliary random vector is never parallel to the last bond (probability zero), and drawn lengths are not zero",
    ]},
    "C12": {"obligations": c12, "lean": (("PVP", "PV"), "PVN"), "header": HEADER_N, "assumptions": [
        "the inverse Langevin function outside 0 < y < 1 is not under contract"]},
    "C13": {"obligations": c13, "lean": (("PVP", "PV"), "PVE"), "header": HEADER_E, "assumptions": [
        "erfcx for x < -26.6 (its value exceeds the largest f64) is not under contract"]},
    "C14": {"obligations": c14, "lean": ("PVP", "PVB", ("PVB1", "PVB2", "PVB3", "PVB4"), "PVC"), "header": HEADER_B, "assumptions": [
        "arguments beyond 700 in magnitude (the value approaches the largest f64) and orders other than 0 and 1 (the code returns -1) are not under contract"]},
}
