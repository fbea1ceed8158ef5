"""Sample points for fingerprints and counterexample search (they satisfy the contracts' requires)."""
import random
from mpmath import mpf
from .ir import *
from .num import evaluate, Ev, Undefined, CONSTS


POSITIVE = {"link_length", "hinge_mass", "link_stiffness", "link_energy", "temperature", "well_width", "persistance_length", "potential_stiffness",
            "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_persistance_length",
            "nondimensional_potential_stiffness", "normalization_nondimensional_equilibrium_distribution", "potential_distance", "nondimensional_potential_distance",
            "BOLTZMANN_CONSTANT", "PLANCK_CONSTANT"}


def uni(r, a, b):
    return mpf(a) + (mpf(b) - mpf(a)) * mpf(r.random())


def logu(r, a, b):
    import mpmath
    return mpmath.exp(uni(r, mpmath.log(a), mpmath.log(b)))


def point(names, r, opts=None):
    """names: {name: sort}"""
    o = opts or {}
    env = {}
    hiN = o.get("maxN", 12)
    N = r.randint(o.get("minN", 2), hiN)
    r2 = random.Random(r.random())
    if "maxN" not in o and r2.random() < 0.15:
        N = r2.randint(1, 255)
    b = logu(r, 0.4, 2.5)
    T = uni(r, 200, 400)
    kT = CONSTS["BOLTZMANN_CONSTANT"] * T
    kap = logu(r, 30, 600) if not o.get("soft") else logu(r, 0.5, 60)
    eps = logu(r, 20, 300)
    eta = logu(r, 0.05, 12) * (1 if r.random() < 0.85 or not o.get("signed") else -1)
    gam = uni(r, 0.03, 0.97)
    well = uni(r, 0.05, 1.2) * b
    alpha = logu(r, 0.03, 3)
    pk = logu(r, 0.5, 80)
    pd = uni(r, 0.05, 1.6)
    m = logu(r, 0.3, 3)
    if o.get("wide"):
        if r2.random() < 0.3:
            eta = logu(r2, 1e-5, 0.05) if r2.random() < 0.6 else logu(r2, 12, 200)
        if r2.random() < 0.25:
            kap = logu(r2, 1, 1e4)
        if r2.random() < 0.25:
            eps = logu(r2, 1, 3000)
        if r2.random() < 0.3:
            gam = logu(r2, 1e-4, 0.03) if r2.random() < 0.6 else uni(r2, 0.97, 1.3)
        if r2.random() < 0.3:
            well = logu(r2, 0.001, 6) * b
        if r2.random() < 0.3:
            alpha = logu(r2, 0.002, 20)
        if r2.random() < 0.3:
            pk = logu(r2, 1e-3, 1e3)
        if r2.random() < 0.3:
            pd = logu(r2, 1e-3, 5)
        if r2.random() < 0.3:
            b, T, m = logu(r2, 0.05, 20), uni(r2, 20, 1500), logu(r2, 0.01, 50)
            kT = CONSTS["BOLTZMANN_CONSTANT"] * T
    eta = min(eta, mpf(o.get("max_eta", 1e9)))
    gam = max(gam, mpf(o.get("min_gam", 0)))
    vals = {
        "number_of_links": N, "link_length": b, "temperature": T, "hinge_mass": m, "nondimensional_link_stiffness": kap,
        "link_stiffness": kap * kT / b ** 2, "nondimensional_link_energy": eps, "link_energy": eps * kT, "nondimensional_force": eta, "force": eta * kT / b,
        "nondimensional_end_to_end_length_per_link": gam, "end_to_end_length": gam * N * b, "well_width": well, "nondimensional_persistance_length": alpha,
        "persistance_length": alpha * N * b, "nondimensional_potential_stiffness": pk, "potential_stiffness": pk * kT / b ** 2,
        "nondimensional_potential_distance": pd, "potential_distance": pd * N * b, "normalization_nondimensional_equilibrium_distribution": uni(r, 0.4, 2.2),
        "nondimensional_end_to_end_length": gam * N, "end_to_end_length_per_link": gam * b, "stretch": uni(r, 1.01, 2.5), "nu": r.randint(0, 1),
        "x": uni(r, 0.1, 5),
    }
    rg = o.get("ranges", {})
    for n, s in names.items():
        if n in rg:
            v = rg[n]
            env[n] = v(r) if callable(v) else (r.randint(int(v[0]), int(v[1])) if s == "Z" else uni(r, *v))
        elif n in vals:
            env[n] = vals[n]
        elif n in CONSTS:
            env[n] = CONSTS[n]
        elif s == "Z":
            env[n] = r.randint(2, 9)
        elif s == "B":
            env[n] = r.random() < 0.5
        else:
            env[n] = uni(r, 0.2, 2.5)
    return env


def requires_of(vs):
    """default preconditions of the physical parameters"""
    out = []
    for v in sorted(vs, key=lambda v: v.x):
        if v.x == "number_of_links":
            out += [le(iconst(1), v), le(v, iconst(255))]
        elif v.x in POSITIVE:
            out.append(lt(ZERO, v))
    return out


def holds(reqs, env):
    for q in reqs:
        if evaluate(q, env) is not True:
            return False
    return True


def points(vs, reqs, n, seed, opts=None):
    r = random.Random(seed)
    names = {v.x: v.sort for v in vs}
    out = []
    for _ in range(n * 20):
        e = point(names, r, opts)
        if holds(reqs, e):
            out.append(e)
            if len(out) >= n:
                break
    return out


def conditions(es):
    """comparison nodes without bound variables in the graphs"""
    from .num import _fb
    out, seen = [], set()
    for e in es:
        for n in nodes(e):
            if n.op in ("lt", "le", "eq") and n.id not in seen and not _fb(n):
                seen.add(n.id)
                out.append(n)
    return out


def boundary_points(es, vs, reqs, base, seed, limit=60):
    """points on and around the branch boundaries of the graphs, reached by moving one variable"""
    import mpmath
    r = random.Random(seed)
    out = []
    conds = conditions(es)
    for c in conds[:40]:
        if c.args[0].sort == "B":
            continue
        fv = [v for v in free_vars(c)]
        d = sub(c.args[0], c.args[1]) if c.args[0].sort == "R" else isub(c.args[0], c.args[1])
        for env in base[:2]:
            for v in fv:
                if v.sort == "Z":
                    seen = set()
                    for k in list(range(0, 256)):
                        e2 = dict(env)
                        e2[v.x] = k
                        if not holds(reqs, e2):
                            continue
                        val = evaluate(c, e2)
                        if val is None:
                            continue
                        dv = evaluate(d, e2)
                        if dv is not None and abs(dv) <= 1:
                            out.append(e2)
                        elif val not in seen:
                            out.append(e2)
                        seen.add(val)
                    continue
                if v.sort != "R" or v.x in CONSTS:
                    continue
                grid = []
                x0 = env[v.x]
                mags = [mpf(10) ** k for k in (-8, -6, -4, -3, -2, -1, 0, 1, 2, 3, 4, 6, 8)]
                for m in sorted(set([s * x for s in (1, -1) for x in mags] + [mpf(0)] + [x0 * mpf(f) for f in (0.2, 0.5, 0.8, 1, 1.3, 2, 5)])):
                    e2 = dict(env)
                    e2[v.x] = m
                    if not holds(reqs, e2):
                        continue
                    y = evaluate(d, e2)
                    if y is not None:
                        grid.append((m, y))
                hit = set()
                for (a, ya), (b, yb) in zip(grid, grid[1:]):
                    if ya == 0:
                        hit.add(a)
                    if ya * yb < 0:
                        for _ in range(130):
                            mid = (a + b) / 2
                            e2 = dict(env)
                            e2[v.x] = mid
                            ym = evaluate(d, e2)
                            if ym is None:
                                break
                            if ym == 0:
                                a = b = mid
                                break
                            if ym * ya < 0:
                                b = mid
                            else:
                                a, ya = mid, ym
                        hit.add((a + b) / 2)
                for m in hit:
                    sc = abs(m) if m != 0 else mpf(1)
                    for f in (0, mpf("1e-9"), -mpf("1e-9"), mpf("1e-3"), -mpf("1e-3"), mpf("0.1"), -mpf("0.1"), mpf("0.6"), -mpf("0.4"), mpf(2)):
                        e2 = dict(env)
                        e2[v.x] = m + f * sc
                        if holds(reqs, e2):
                            out.append(e2)
                if len(out) > limit * 3:
                    break
    r.shuffle(out)
    return out[:limit]
