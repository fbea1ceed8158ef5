"""Monte Carlo chain generation (C15): what holds of every chain grown, for every sequence of random draws."""
import itertools
import random
import re
from fractions import Fraction
from mpmath import mpf
from .core import *
from .engine import Ob
from .symex import Exec, SeqV, ListV, TupV, V, MutRef, SymIterMut, ZipSym, RangeV, UNIT, FromFn
from .deriv import Raw
from . import lean

F = Fraction
SC = "physics::single_chain::"


class RngV:
    """the random number generator: every draw is arbitrary in its range"""


class DistV:
    """a normal distribution given by the caller: every sample is an arbitrary real number"""


class Loop:
    pass


class MCExec(Exec):
    def __init__(self, crate, boundary=None):
        Exec.__init__(self, crate, boundary)
        self.draws = []
        self.grown = []
        self.counting = None
        self.tally = None
        self.samples = []

    def global_path(self, p, st, fr):
        try:
            return Exec.global_path(self, p, st, fr)
        except Unsupported:
            if len(p) == 1 and fr.fn is not None and ("const%s:" % p[0]) in str(fr.fn.node["sig"].get("generics", "")).replace(" ", ""):
                return V(var(p[0], "Z"), "usize")
            raise

    def ext_hook(self, p, args, st, fr):
        if p[-1] == "thread_rng" and not args:
            return RngV()
        if p[-2:] == ["Normal", "new"] and len(args) == 2:
            d = DistV()
            d.mean, d.sd = self.num(args[0], st).e, self.num(args[1], st).e
            return d
        return None

    def draw(self, kind):
        v = var("%s%d" % (kind, len(self.draws)))
        self.draws.append(v)
        return V(v, "f64")

    def method(self, v, m, args, st, fr, e=None):
        w = self.rv(v, st)
        if isinstance(w, RngV) and m in ("gen", "random") and not args:
            return self.draw("unit")
        if isinstance(w, RngV) and m in ("by_ref", "clone"):
            raise Unsupported("copy of the generator")
        if isinstance(w, DistV) and m in ("unwrap", "clone", "to_owned"):
            return w
        if isinstance(w, DistV) and m == "sample":
            return self.draw("normal")
        return Exec.method(self, v, m, args, st, fr, e)

    def sym_update(self, it, body, st, fr):
        try:
            return Exec.sym_update(self, it, body, st, fr)
        except Unsupported as e:
            if not ("outer state" in str(e) or "early exit" in str(e) and self.counting is not None):
                raise
        if self.counting is not None:
            return self.first_bin(it, body, st, fr)
        # elements grown one after the other, with variables carried along
        k = fresh("k", "Z")
        n = self.seq_len(it)
        muts = []

        def build(x, s):
            if isinstance(x, SymIterMut):
                sl = self.new_slot()
                s.store[sl] = self.rv(self.read(x.lv, s), s).f(k)
                muts.append((x, sl))
                return MutRef(sl)
            if isinstance(x, ZipSym):
                return TupV([build(x.a, s), build(x.b, s)])
            if isinstance(x, SeqV):
                return x.f(k)
            raise Unsupported("zip component %r" % (x,))

        d0 = len(self.draws)

        def step(s):
            del self.draws[d0:]
            del muts[:]
            x = build(it, s)
            a0 = s.alive
            br = self.run_body(body, x, s, fr, True)
            if br or s.alive is not a0:
                raise Unsupported("early exit while growing")
            out = [self.scalars(self.rv(s.store[sl], s)) for _, sl in muts]
            for _, sl in muts:
                del s.store[sl]
            return out
        self.binders.append((k, n))
        try:
            names, s, out = self.changed_slots(st, step)
            s2 = st.copy()
            for key, leaves in names.items():
                s2.store[key] = self.rebuild_val(st.store[key], iter(leaves))
            out = step(s2)
        finally:
            self.binders.pop()
        if len(out) != 1 or out[0] is None:
            raise Unsupported("what is grown")
        L = Loop()
        L.n, L.k, L.draws = n, k, list(self.draws[d0:])
        L.elem = [v.e for v in out[0]]
        L.init, L.sym, L.step = [], [], []
        for key, leaves in names.items():
            for a, b, c in zip(self.scalars(st.store[key]), leaves, self.scalars(s2.store[key])):
                L.init.append(a.e)
                L.sym.append(b.e)
                L.step.append(c.e)
        for key in names:
            st.store[key] = self.rebuild_val(st.store[key], iter([V(fresh("left", x.e.sort), x.ty) for x in names[key]]))
        i = len(self.grown)
        self.grown.append(L)
        m = muts[0][0]
        shape = self.rv(self.read(m.lv, st), st).f(k)
        self.write(m.lv, SeqV(n, lambda kk: self.rebuild_val(shape, iter([V(call("grown%d_%d" % (i, j), [kk]), "f64") for j in range(len(L.elem))]))), st)


    def first_bin(self, it, body, st, fr):
        """for (edge, count) in …: the first bin that meets a condition is counted, and the search stops"""
        k = fresh("k", "Z")
        n = self.seq_len(it)
        s = st.copy()
        a0 = s.alive
        muts = []

        def build(x):
            if isinstance(x, SymIterMut):
                sl = self.new_slot()
                s.store[sl] = self.rv(self.read(x.lv, s), s).f(k)
                muts.append((x, sl, s.store[sl]))
                return MutRef(sl)
            if isinstance(x, ZipSym):
                return TupV([build(x.a), build(x.b)])
            if isinstance(x, SeqV):
                return x.f(k)
            raise Unsupported("zip component %r" % (x,))
        x = build(it)
        keep = dict(s.store)
        o0 = len(self.obls)
        self.binders.append((k, n))
        try:
            br = self.run_body(body, x, s, fr, True)
        finally:
            self.binders.pop()
        if len(muts) != 1 or not br:
            raise Unsupported("what is counted")
        m, sl, old = muts[0]

        def unchanged(store, but):
            return all(store.get(key) is v or self.same(store.get(key), v) for key, v in keep.items() if key != but)
        if s.alive is not FALSE and not unchanged(s.store, None):
            raise Unsupported("something changes though no bin is found")
        cond = FALSE
        for b in br:
            new = b.store[sl]
            if not unchanged(b.store, sl) or new.e is not iadd(old.e, iconst(1)):
                raise Unsupported("what is counted")
            cond = or_(cond, b.alive)
        self.counting.append((k, n, cond, [o for o in self.obls[o0:] if o.kind == "panic"]))
        i = len(self.counting) - 1
        seq = self.rv(self.read(m.lv, st), st)
        self.write(m.lv, SeqV(n, lambda kk: V(iadd(seq.f(kk).e, call("hit%d" % i, [kk], "Z")), old.ty)), st)

    def sym_for(self, n, item, body, st, fr):
        try:
            return Exec.sym_for(self, n, item, body, st, fr)
        except Unsupported as e:
            if not ("non-scalar" in str(e) or "early exit" in str(e)) or self.tally is not None or self.counting is not None:
                raise
        k = fresh("k", "Z")

        def step(s):
            self.counting, self.samples = [], []
            del self.obls[o0:]
            self.binders.append((k, n))
            try:
                br = self.run_body(body, item(k), s, fr, True)
            finally:
                self.binders.pop()
            if br:
                raise Unsupported("sampling stops early")
        o0 = len(self.obls)
        s = st.copy()
        keep = dict(s.store)
        try:
            step(s)
            ch = [key for key in keep if s.store.get(key) is not keep[key] and not self.same(s.store.get(key), keep[key])]
            s = st.copy()
            seqs, left = [], {}
            for key in ch:
                v = st.store[key]
                if isinstance(v, SeqV):
                    seqs.append(key)
                    s.store[key] = SeqV(v.n, lambda kk, v=v: V(call("before", [kk], "Z"), self.scalars(v.f(kk))[0].ty))
                else:
                    lv = self.scalars(v)
                    if lv is None:
                        raise Unsupported("sampling changes a non-scalar")
                    left[key] = [V(fresh("left", x.e.sort), x.ty) for x in lv]
                    s.store[key] = self.rebuild_val(v, iter(left[key]))
            step(s)
            if len(seqs) != 1 or len(self.counting) != 1:
                raise Unsupported("what the samples are counted into")
            j = var("j", "Z")
            if s.store[seqs[0]].f(j).e is not iadd(call("before", [j], "Z"), call("hit0", [j], "Z")):
                raise Unsupported("what a sample adds")
            kb, nb, cond, pans = self.counting[0]
            fv = set(free_vars(cond)) | {v for o in pans for v in free_vars(o.pc)}
            if k in fv or any(x.e in fv for l in left.values() for x in l):
                raise Unsupported("the samples depend on each other")
            self.tally = {"n": n, "bin": kb, "bins": nb, "cond": cond, "panics": pans, "init": st.store[seqs[0]].f(j).e, "samples": list(self.samples)}
        finally:
            self.counting = None
        for key, l in left.items():
            st.store[key] = self.rebuild_val(st.store[key], iter([V(fresh("left", x.e.sort), x.ty) for x in l]))
        st.store[seqs[0]] = SeqV(nb, lambda kk: V(call("count", [kk], "Z"), "u128"))


def read(ctx, path, args, boundary=None):
    f = ctx.crate.fn(path)
    ex = MCExec(ctx.crate, (lambda g: (boundary or {}).get(g.path) if g is not f else None))
    vs = []
    for p, n in zip(f.params, f.param_names()):
        t = p["ty"].replace("&", "").replace("mut ", "").replace(" ", "")
        vs.append(RngV() if "Rng" in t else DistV() if "Normal" in t else V(args[n], "f64" if args[n].sort == "R" else t))
    r = ex.run(f, vs)
    for k, n in ex.inlined.items():
        USED[k] = USED.get(k, 0) + n
    USED[path] = USED.get(path, 0) + 1
    OBLS.extend(ex.obls)
    return r, ex


# --- the shape of the loop --------------------------------------------------------------

PI = fn("pi")


def depends(L):
    """state variables that what is grown depends on, over any number of steps"""
    live, todo = set(), list(L.elem)
    while todo:
        fv = set(free_vars(todo.pop()))
        for i, v in enumerate(L.sym):
            if v in fv and i not in live:
                live.add(i)
                todo.append(L.step[i])
    return sorted(live)


class Chain:
    """the loop that grows a chain: positions p, other variables r, random draws, and the bond added"""

    def __init__(self, L):
        live = depends(L)
        if len(L.elem) != 3:
            raise Unsupported("coordinates")
        pts = probe(L, 4)
        same = lambda a, b: all(near(evaluate(a, e), evaluate(b, e)) for e in pts)
        self.L, used, pos = L, set(), []
        for i in range(3):
            c = [j for j in live if j not in used and same(L.step[j], L.elem[i])]
            if not c:
                raise Unsupported("no variable holds the position reached")
            pos.append(c[0])
            used.add(c[0])
        self.pos = pos
        self.rest = [j for j in live if j not in used]
        self.bond = [sub(L.elem[i], L.sym[pos[i]]) for i in range(3)]
        self.pts, self.same = pts, same
        ks = set()
        for j in live:
            ks |= set(free_vars(L.step[j]))
        if L.k in ks:
            raise Unsupported("the bond depends on its number")
        self.draws = [d for d in L.draws if d in ks]
        self.names = {}
        for i, j in enumerate(pos):
            self.names[L.sym[j]] = "p%d_" % i
        for i, j in enumerate(self.rest):
            self.names[L.sym[j]] = "r%d_" % i
        for i, d in enumerate(self.draws):
            self.names[d] = "g%d_" % i

    def direction(self):
        """the other variables as a vector that becomes the bond"""
        if len(self.rest) != 3:
            raise Unsupported("variables besides the position")
        out = []
        for i in range(3):
            c = [j for j in self.rest if j not in out and self.same(self.L.step[j], self.bond[i])]
            if not c:
                raise Unsupported("no variable holds the last bond")
            out.append(c[0])
        for i, j in enumerate(out):
            self.names[self.L.sym[j]] = "r%d_" % i
        self.dir = out
        return [self.L.sym[j] for j in out]


def near(a, b):
    return a is not None and b is not None and abs(a - b) <= mpf(10) ** -12 * (1 + abs(a))


def value(r, v):
    return mpf(r.uniform(0.5, 1.5)) if v.x.startswith("normal") else mpf(r.random())


def probe(L, n):
    r = random.Random(5)
    vs = set()
    for e in L.elem + L.step:
        vs |= set(free_vars(e))
    out = []
    for _ in range(n):
        out.append({v.x: (mpf(r.uniform(0.2, 1.2)) if v.sort == "R" and not v.x.startswith(("unit", "normal")) else value(r, v) if v.sort == "R" else r.randint(2, 9)) for v in vs})
    return out


HEADER = "import PV\nimport PVM\nset_option maxHeartbeats 800000\nset_option linter.all false\nset_option maxRecDepth 20000\n"
TRIG = "have hz1_ : -1 ≤ (%s) := by have := hu_%d k; linarith [this.1, this.2]\n%shave hz2_ : (%s) ≤ 1 := by have := hu_%d k; linarith [this.1, this.2]\n"


class Grown:
    """a statement about every chain grown by the loop"""

    def __init__(self, ch, lhs, rhs, goal, proof, reqs=()):
        self.ch, self.lhs, self.rhs, self.goal, self.proof, self.reqs = ch, lhs, rhs, goal, proof, list(reqs)

    def screen_form(self):
        return self.lhs, self.rhs, self.reqs, {}

    def complete(self, env):
        return env

    def theorem(self, name, samples, seed):
        class P:
            def prove(self, l, r):
                return ""
        return P()

    def printer(self):
        raw = Raw(lean.Theorem("x", [], []))
        m = {v: var(n) for v, n in self.ch.names.items()}
        return lambda e, k="k": re.sub(r"\b([prg]\d+_)", r"(\1 (%s))" % k if " " in k or "+" in k else r"(\1 %s)" % k, raw.t(subst(e, m)))

    def text(self, th, btext, name):
        ch, L = self.ch, self.ch.L
        t = self.printer()
        js = ch.pos + ch.rest
        seqs = [ch.names[L.sym[j]] for j in js] + [ch.names[d] for d in ch.draws]
        fv = set()
        for j in js:
            fv |= set(free_vars(L.step[j]))
        fv -= set(ch.names)
        hy = ["(%s : ℝ)" % t(v) for v in sorted(fv, key=lambda z: z.x)]
        if seqs:
            hy.append("(%s : ℕ → ℝ)" % " ".join(seqs))
        for j in js:
            n = ch.names[L.sym[j]]
            hy.append("(i_%s : %s 0 = %s)" % (n, n, t(L.init[j])))
            hy.append("(s_%s : ∀ k : ℕ, %s (k+1) = %s)" % (n, n, t(L.step[j])))
        for i, d in enumerate(ch.draws):
            if d.x.startswith("unit"):
                hy.append("(hu_%d : ∀ k : ℕ, 0 ≤ %s ∧ %s < 1)" % (i, t(d), t(d)))
        for i, d in enumerate(ch.divisors()):
            hy.append("(nd_%d : ∀ k : ℕ, %s ≠ 0)" % (i, t(d)))
        grown = " ∧ ".join("%s = p%d_ (k+1)" % (t(L.elem[i]), i) for i in range(3))
        return """theorem %s %s :
    (∀ k : ℕ, %s) ∧ (p0_ 0 = 0 ∧ p1_ 0 = 0 ∧ p2_ 0 = 0) ∧ %s := by
  refine ⟨fun k => ⟨?_, ?_, ?_⟩, ⟨?_, ?_, ?_⟩, ?_⟩
  · rw [s_p0_ k]; first | done | ring1
  · rw [s_p1_ k]; first | done | ring1
  · rw [s_p2_ k]; first | done | ring1
  · exact i_p0_.trans (by norm_num)
  · exact i_p1_.trans (by norm_num)
  · exact i_p2_.trans (by norm_num)
  · %s
""" % (name, "\n    ".join(hy), grown, self.goal, self.proof.replace("\n", "\n    "))


def divisors(ch):
    """what the code divides by"""
    out = []
    for e in ch.L.elem:
        for n in nodes(e):
            if n.op == "div" and n.args[1].op not in ("const", "iconst") and n.args[1] not in out and set(free_vars(n.args[1])) & set(ch.names):
                out.append(n.args[1])
    return out


Chain.divisors = divisors


def find(ch, specs):
    """the first description that the bond agrees with"""
    for s in specs:
        if all(near(evaluate(b, e), evaluate(x, e)) for e in ch.pts[:1] for b, x in zip(ch.bond, s["bond"])) and \
           all(near(evaluate(b, e), evaluate(x, e)) for e in ch.pts for b, x in zip(ch.bond, s["bond"])):
            return s
    raise Unsupported("the bond is not of a known form")


def scale_of(ch):
    ls = [d for d in ch.draws if d.x.startswith("normal")]
    if len(ls) > 1:
        raise Unsupported("more than one length drawn for a bond")
    return ls[0] if ls else ONE


def sphere(ch):
    """bond = length times the point of the unit sphere at height z, azimuth φ, both drawn uniformly"""
    us = [d for d in ch.draws if d.x.startswith("unit")]
    if ch.rest:
        raise Unsupported("the bond depends on the bonds before")
    l = scale_of(ch)

    def specs():
        for u, w in itertools.permutations(us, 2):
            phi = mul(mul(const(2), PI), w)
            for z in (sub(ONE, mul(const(2), u)), sub(mul(const(2), u), ONE)):
                s = fn("sin", fn("acos", z))
                for sa, sb in itertools.product((1, -1), repeat=2):
                    A, B = fn("cos", phi), fn("sin", phi)
                    A, B = (A if sa > 0 else neg(A)), (B if sb > 0 else neg(B))
                    for pm in itertools.permutations((mul(s, A), mul(s, B), z)):
                        yield {"bond": [mul(l, x) for x in pm], "z": z, "A": A, "B": B, "u": u, "phi": phi, "pm": pm, "l": l}
    return find(ch, specs())


def code_node(ch, e):
    """the code's own root that has this value"""
    for b in ch.bond:
        for n in nodes(b):
            if n.op == "fn" and n.x == "sqrt" and ch.same(n, e):
                return n
    return e


def cross(a, b):
    return [sub(mul(a[1], b[2]), mul(a[2], b[1])), sub(mul(a[2], b[0]), mul(a[0], b[2])), sub(mul(a[0], b[1]), mul(a[1], b[0]))]


def dot(a, b):
    return add(add(mul(a[0], b[0]), mul(a[1], b[1])), mul(a[2], b[2]))


def cone(ch, theta):
    """bond = length times the last direction turned by theta about a random axis"""
    r = ch.direction()
    us = [d for d in ch.draws if d.x.startswith("unit")]
    l = scale_of(ch)
    nr = None if l is ONE else code_node(ch, fn("sqrt", dot(r, r)))
    rn = r if nr is None else [div(x, nr) for x in r]
    c, s = fn("cos", theta), fn("sin", theta)

    def specs():
        for sel in itertools.permutations(us, 4):
            phi = mul(mul(const(2), PI), sel[0])
            for t in (list(sel[1:]), [sub(mul(const(2), x), ONE) for x in sel[1:]], [sub(ONE, mul(const(2), x)) for x in sel[1:]]):
                w = cross(rn, t)
                q = fn("sqrt", dot(w, w))
                u = [div(x, q) for x in w]
                v = cross(rn, u)
                for f, g in (("cos", "sin"), ("sin", "cos")):
                    for sa, sb in itertools.product((1, -1), repeat=2):
                        A, B = fn(f, phi), fn(g, phi)
                        A, B = (A if sa > 0 else neg(A)), (B if sb > 0 else neg(B))
                        yield {"bond": [mul(l, add(mul(add(mul(u[i], A), mul(v[i], B)), s), mul(rn[i], c))) for i in range(3)],
                               "t": t, "q": q, "A": A, "B": B, "l": l, "rn": rn, "nr": nr, "r": r, "phi": phi, "w": w}
    sp = find(ch, specs())
    q = code_node(ch, sp["q"])
    u = [div(x, q) for x in sp["w"]]
    v = cross(rn, u)
    sp.update(q=q, u=u, v=v, c=c, s=s, bond=[mul(l, add(mul(add(mul(u[i], sp["A"]), mul(v[i], sp["B"])), s), mul(rn[i], c))) for i in range(3)])
    return sp


FORM = "the way the bond is drawn is not of a proved form"
LEN = "(p0_ (k+1) - p0_ k)^2 + (p1_ (k+1) - p1_ k)^2 + (p2_ (k+1) - p2_ k)^2"
ANG = "(p0_ (k+1) - p0_ k) * (p0_ (k+2) - p0_ (k+1)) + (p1_ (k+1) - p1_ k) * (p1_ (k+2) - p1_ (k+1)) + (p2_ (k+1) - p2_ k) * (p2_ (k+2) - p2_ (k+1))"
RING = "first | done | rfl | ring1 | (simp only [Real.sin_arccos]; ring1) | (field_simp; ring1)"


def named(ch, e):
    return subst(e, {v: var(n) for v, n in ch.names.items()})


def sphere_ob(ch):
    l = scale_of(ch)
    lhs = named(ch, dot(ch.bond, ch.bond))
    rhs = named(ch, mul(l, l))
    try:
        sp = sphere(ch)
    except Unsupported:
        return lhs, rhs, []
    return lhs, rhs, sp


def sphere_text(ch, sp):
    g = Grown(ch, None, None, None, None)
    t = g.printer()
    z, A, B, u, l = t(sp["z"]), t(sp["A"]), t(sp["B"]), ch.draws.index(sp["u"]), t(sp["l"])
    spec = [t(b) for b in sp["bond"]]
    st = ["have st_ : ∀ k : ℕ, " + " ∧ ".join("p%d_ (k+1) - p%d_ k = %s" % (i, i, spec[i]) for i in range(3)) + " := by",
          "  intro k", "  have hz1_ : -1 ≤ %s := by linarith [(hu_%d k).1, (hu_%d k).2]" % (z, u, u), "  have hz2_ : %s ≤ 1 := by linarith [(hu_%d k).1, (hu_%d k).2]" % (z, u, u),
          "  refine ⟨?_, ?_, ?_⟩"]
    for i in range(3):
        st.append("  · rw [s_p%d_ k]; first | ring1 | (simp only [Real.cos_arccos hz1_ hz2_]; ring1) | (simp only [Real.cos_arccos hz1_ hz2_, Real.sin_arccos]; ring_nf)" % i)
    st += ["have ln_ : ∀ k : ℕ, %s = (%s)^2 := by" % (LEN, l), "  intro k",
           "  have hz1_ : -1 ≤ %s := by linarith [(hu_%d k).1, (hu_%d k).2]" % (z, u, u), "  have hz2_ : %s ≤ 1 := by linarith [(hu_%d k).1, (hu_%d k).2]" % (z, u, u),
           "  have hs_ := PVM.height (%s) hz1_ hz2_" % z, "  have hAB_ := Real.sin_sq_add_cos_sq (%s)" % t(sp["phi"]), "  obtain ⟨e0_, e1_, e2_⟩ := st_ k", "  rw [e0_, e1_, e2_]",
           "  linear_combination (%s)^2 * (Real.sin (Real.arccos (%s)))^2 * hAB_ + (%s)^2 * hs_" % (l, z, l)]
    bonds = "∀ k : ℕ, (%s = (%s)^2) ∧ (%s)" % (LEN, l, " ∧ ".join("p%d_ (k+1) - p%d_ k = %s" % (i, i, spec[i]) for i in range(3)))
    reach = "∀ n : ℕ, √((p0_ n)^2 + (p1_ n)^2 + (p2_ n)^2) ≤ "
    if sp["l"] is ONE:
        reach += "n"
        pr = "intro n\nhave h_ := PVM.reach p0_ p1_ p2_ (fun _ => 1) (i_p0_.trans (by norm_num)) (i_p1_.trans (by norm_num)) (i_p2_.trans (by norm_num)) (fun _ => zero_le_one) (fun k => by rw [ln_ k]) n\nsimpa using h_"
    else:
        reach += "∑ k ∈ Finset.range n, |%s|" % l
        pr = "intro n\nexact PVM.reach p0_ p1_ p2_ (fun k => |%s|) (i_p0_.trans (by norm_num)) (i_p1_.trans (by norm_num)) (i_p2_.trans (by norm_num)) (fun _ => abs_nonneg _) (fun k => by rw [ln_ k, sq_abs]) n" % l
    head = "\n".join(st) + "\n"
    return (bonds, head + "exact fun k => ⟨ln_ k, st_ k⟩"), (reach, head + pr)


def cone_text(ch, sp):
    g = Grown(ch, None, None, None, None)
    t = g.printer()
    l = t(sp["l"])
    rn = [t(x) for x in sp["rn"]]
    T = [t(x) for x in sp["t"]]
    q = t(sp["q"])
    bond = [t(b) for b in sp["bond"]]
    one = sp["l"] is ONE
    c, s = t(sp["c"]), t(sp["s"])
    L = ["have rb_ : ∀ k : ℕ, " + " ∧ ".join("r%d_ (k+1) = p%d_ (k+1) - p%d_ k" % (i, i, i) for i in range(3)) + " := by", "  intro k", "  refine ⟨?_, ?_, ?_⟩"]
    for i in range(3):
        L.append("  · rw [s_p%d_ k, s_r%d_ k]; %s" % (i, i, RING))
    L += ["have st_ : ∀ k : ℕ, (%s)^2 + (%s)^2 + (%s)^2 = 1 → (%s = (%s)^2) ∧ (%s) * (p0_ (k+1) - p0_ k) + (%s) * (p1_ (k+1) - p1_ k) + (%s) * (p2_ (k+1) - p2_ k) = %s * %s := by" % (rn[0], rn[1], rn[2], LEN, l, rn[0], rn[1], rn[2], l, c),
          "  intro k hr_",
          "  have hq0_ : %s ≠ 0 := by first %s" % (q, " ".join("| exact nd_%d k" % i for i in range(len(ch.divisors())))),
          "  have hq_ : (%s)^2 = (%s*%s - %s*%s)^2 + (%s*%s - %s*%s)^2 + (%s*%s - %s*%s)^2 := by" % (q, rn[1], T[2], rn[2], T[1], rn[2], T[0], rn[0], T[2], rn[0], T[1], rn[1], T[0]),
          "    exact PVM.root (by ring1)",
          "  have C_ := PVM.cone (%s) (%s) (%s) (%s) (%s) (%s) (%s) (%s) (%s) (%s) (Real.sin_sq_add_cos_sq _) (by first | exact Real.sin_sq_add_cos_sq (%s) | exact Real.cos_sq_add_sin_sq (%s) | linear_combination Real.sin_sq_add_cos_sq (%s)) hr_ _ _ _ (%s) hq_ hq0_ rfl rfl rfl" % (
              *rn, *T, c, s, t(sp["A"]), t(sp["B"]), t(sp["phi"]), t(sp["phi"]), t(sp["phi"]), q)]
    u = ["((%s*%s - %s*%s) / (%s))" % (rn[1], T[2], rn[2], T[1], q), "((%s*%s - %s*%s) / (%s))" % (rn[2], T[0], rn[0], T[2], q), "((%s*%s - %s*%s) / (%s))" % (rn[0], T[1], rn[1], T[0], q)]
    A, B = t(sp["A"]), t(sp["B"])
    un = lambda i: "((%s * (%s) + (%s*%s - %s*%s) * (%s)) * (%s) + %s * (%s))" % (u[i], A, rn[(i + 1) % 3], u[(i + 2) % 3], rn[(i + 2) % 3], u[(i + 1) % 3], B, s, rn[i], c)
    for i in range(3):
        L.append("  have e%d_ : p%d_ (k+1) - p%d_ k = %s * %s := by rw [s_p%d_ k]; %s" % (i, i, i, l, un(i), i, RING))
    L += ["  rw [e0_, e1_, e2_]", "  exact ⟨by linear_combination (%s)^2 * C_.1, by linear_combination (%s) * C_.2⟩" % (l, l)]
    if one:
        L += ["have ru_ : ∀ k : ℕ, (r0_ k)^2 + (r1_ k)^2 + (r2_ k)^2 = 1 := by", "  intro k", "  induction k with",
              "  | zero => rw [i_r0_, i_r1_, i_r2_]; norm_num", "  | succ k ih => rw [(rb_ k).1, (rb_ k).2.1, (rb_ k).2.2, (st_ k ih).1]; norm_num",
              "have ln_ : ∀ k : ℕ, %s = 1 := fun k => (st_ k (ru_ k)).1.trans (by norm_num)" % LEN,
              "have an_ : ∀ k : ℕ, %s = %s := by" % (ANG, c), "  intro k", "  have h_ := (st_ (k+1) (ru_ (k+1))).2", "  rw [(rb_ k).1, (rb_ k).2.1, (rb_ k).2.2] at h_", "  linarith"]
        bonds = "∀ k : ℕ, (%s = 1) ∧ (%s = %s)" % (LEN, ANG, c)
        reach = "∀ n : ℕ, √((p0_ n)^2 + (p1_ n)^2 + (p2_ n)^2) ≤ PVM.stretch n (%s)" % c
        pr = "exact fun n => PVM.rotating p0_ p1_ p2_ _ (i_p0_.trans (by norm_num)) (i_p1_.trans (by norm_num)) (i_p2_.trans (by norm_num)) ln_ an_ n"
    else:
        n = t(sp["nr"])
        n1 = t(sp["nr"], "k+1")
        L += ["have ru_ : ∀ k : ℕ, (%s)^2 + (%s)^2 + (%s)^2 = 1 := by" % tuple(rn), "  intro k",
              "  have hn_ : %s ≠ 0 := by first %s" % (n, " ".join("| exact nd_%d k" % i for i in range(len(ch.divisors())))),
              "  have h2_ : (%s)^2 = (r0_ k)^2 + (r1_ k)^2 + (r2_ k)^2 := PVM.root (by ring1)" % n,
              "  rw [div_pow, div_pow, div_pow, ← add_div, ← add_div, ← h2_, div_self (pow_ne_zero 2 hn_)]",
              "have ln_ : ∀ k : ℕ, %s = (%s)^2 := fun k => (st_ k (ru_ k)).1" % (LEN, l),
              "have an_ : ∀ k : ℕ, %s = |%s| * %s * %s := by" % (ANG, l, t(sp["l"], "k+1"), c), "  intro k", "  have h_ := (st_ (k+1) (ru_ (k+1))).2",
              "  have hn_ : %s ≠ 0 := by first %s" % (n1, " ".join("| exact nd_%d (k+1)" % i for i in range(len(ch.divisors())))),
              "  have hv_ : %s = |%s| := by" % (n1, l), "    rw [← Real.sqrt_sq_eq_abs]", "    congr 1", "    rw [(rb_ k).1, (rb_ k).2.1, (rb_ k).2.2, ← ln_ k]", "    ring1",
              "  rw [hv_] at h_ hn_", "  rw [(rb_ k).1, (rb_ k).2.1, (rb_ k).2.2] at h_", "  field_simp at h_", "  linarith"]
        bonds = "∀ k : ℕ, (%s = (%s)^2) ∧ (%s = |%s| * %s * %s)" % (LEN, l, ANG, l, t(sp["l"], "k+1"), c)
        reach = "∀ n : ℕ, √((p0_ n)^2 + (p1_ n)^2 + (p2_ n)^2) ≤ ∑ k ∈ Finset.range n, |%s|" % l
        pr = "intro n\nexact PVM.reach p0_ p1_ p2_ (fun k => |%s|) (i_p0_.trans (by norm_num)) (i_p1_.trans (by norm_num)) (i_p2_.trans (by norm_num)) (fun _ => abs_nonneg _) (fun k => by rw [ln_ k, sq_abs]) n" % l
    head = "\n".join(L) + "\n"
    first = "p0_ 1 = %s * %s" % (t(sp["l"], "0"), c)
    fp = "\nhave f_ : %s := by\n  have h_ := (st_ 0 (ru_ 0)).2\n  rw [i_r0_, i_r1_, i_r2_, i_p0_] at h_\n  first | linarith | (norm_num at h_; linarith)\n" % first
    return ("(%s) ∧ %s" % (bonds, first), head + fp + "exact ⟨fun k => ⟨ln_ k, an_ k⟩, f_⟩"), (reach, head + pr)


MODELS = (("fjc", False), ("frc", True), ("efjc", False), ("efrc", True))


def c15(ctx):
    obs = []
    theta = var("theta")
    rg = {"theta": (0.05, 3.0), "a1_": (0.1, 3.0), "a2_": (0.1, 6.0)}
    for i in range(8):
        rg["g%d_" % i] = (0.02, 0.98)
        rg["p%d_" % i] = (-2, 2)
        rg["r%d_" % i] = (-2, 2)
    for model, angle in MODELS:
        base = SC + model + "::thermodynamics::isometric::monte_carlo::"
        path = base + "random_configuration"
        if base[:-2] not in ctx.crate.modules:
            continue
        stiff = model.startswith("e")

        def chain(path=path):
            r, ex = read(ctx, path, {"theta": theta})
            if len(ex.grown) != 1 or not isinstance(r, SeqV):
                raise Unsupported("the chain is not grown by one loop")
            x = r.f(var("j", "Z"))
            if [v.e for v in ex.scalars(x)] != [call("grown0_%d" % i, [var("j", "Z")]) for i in range(3)]:
                raise Unsupported("what is returned is not what was grown")
            return Chain(ex.grown[0])

        def alt(which, chain=chain, angle=angle):
            ch = chain()
            l = scale_of(ch)
            try:
                if angle:
                    r = ch.direction()
                    a1, a2 = var("a1_"), var("a2_")
                    m = dict(zip(r, (fn("cos", a1), mul(fn("sin", a1), fn("cos", a2)), mul(fn("sin", a1), fn("sin", a2)))))
                    lhs = add(dot(ch.bond, ch.bond), mul(const(7), dot(r, ch.bond)))
                    rhs = add(mul(l, l), mul(mul(const(7), l), fn("cos", theta)))
                    lhs, rhs = named(ch, subst(lhs, m)), named(ch, rhs)
                    tx = cone_text(ch, cone(ch, theta))
                else:
                    lhs, rhs = named(ch, dot(ch.bond, ch.bond)), named(ch, mul(l, l))
                    tx = sphere_text(ch, sphere(ch))
            except Unsupported:
                if angle and len(ch.rest) != 3:
                    raise
                return lhs, rhs, []
            return Grown(ch, lhs, rhs, *tx[which])
        what = {"fjc": "each bond has length 1 and a direction drawn uniformly from the sphere", "frc": "each bond has length 1 and makes the angle theta with the one before, the first with the x axis",
                "efjc": "each bond has the length drawn and a direction drawn uniformly from the sphere", "efrc": "each bond has the length drawn and makes the angle theta with the one before, the first with the x axis"}[model]
        far = {"fjc": "the chain reaches no further than its number of links", "frc": "the chain reaches no further than the planar zigzag"}.get(model, "the chain reaches no further than the sum of its bond lengths")
        sn = {"obj:%s:bonds" % model: BONDS % {"base": "polymers::" + base, "th": "&a[0], " if angle else "", "test": ANGLE_T if angle else SPHERE_T}} if not stiff else {}
        cl = (call("obj:%s:bonds" % model, [theta]), ONE) if not stiff else None
        for which, tag, clause in ((0, "bonds", what), (1, "reach", far)):
            opts = {"ranges": rg, "real_n": 6, "rtol": 1e-7, "point": True}
            if not stiff:
                opts["bounded_ok"] = FORM
            obs.append(Ob("mc.%s.%s" % (model, tag), path, clause, [lambda which=which, alt=alt: alt(which)], requires=[], claim=cl, snippets=sn, opts=opts))
        e2e, rdf = base + "random_nondimensional_end_to_end_length", base + "nondimensional_equilibrium_radial_distribution"

        def length(path=e2e):
            r, ex = read(ctx, path, {"theta": theta})
            x = r.e
            seen = {}

            def f(e):
                if e.op == "call" and e.x.startswith("grown0_"):
                    return seen.setdefault(e.id, var("%s_%s" % (e.x, "last" if e.args[0] is isub(NL, iconst(1)) else "at%d" % e.id)))
            x = replace(x, f)
            last = [var("grown0_%d_last" % i) for i in range(3)]
            return x, fn("sqrt", add(add(mul(last[0], last[0]), mul(last[1], last[1])), mul(last[2], last[2]))), []

        def table(path=rdf, e2e=e2e, model=model):
            r, ex = read(ctx, path, {"theta": theta, "kappa": var("kappa"), "gamma_max": GM, "number_of_samples": NS}, {e2e: sampler})
            h = Histogram(model, r, ex)
            h.lhs, h.rhs = h.sides()
            h.reqs = [le(iconst(1), NB), le(iconst(1), NL), le(iconst(1), NS), le(iconst(0), var("b_", "Z")), lt(var("b_", "Z"), NB), lt(ZERO, var("u_")), lt(var("u_"), ONE), lt(ZERO, theta), lt(theta, PI)] + ([lt(ZERO, GM), lt(ZERO, var("kappa"))] if model.startswith("e") else [])
            return h
        gen = {"base": "polymers::" + base, "th": "&a[0], " if angle else ""}
        sn = {"obj:%s:length" % model: LENGTH % dict(gen, mean=MEAN[angle])} if not stiff else {}
        opts = {"ranges": rg, "real_n": 6, "rtol": 1e-7, "point": True}
        if not stiff:
            opts["bounded_ok"] = FORM
        obs.append(Ob("mc.%s.length" % model, e2e, "the end-to-end length is the distance of the last link's end from the origin", [length], requires=[],
                      claim=(call("obj:%s:length" % model, [theta]), ONE) if not stiff else None, snippets=sn, opts=opts))
        hr = dict(rg)
        hr.update({"NUMBER_OF_BINS": (9, 40), "NUMBER_OF_LINKS": (1, 12), "number_of_samples": (1, 50), "b_": (0, 8), "c_": (0, 20), "u_": (0.02, 0.98), "gamma_max": (0.5, 2.0), "kappa": (5, 100)})
        sn = {"obj:%s:table" % model: TABLE % dict(gen, gmax=GMAX[angle])} if not stiff else {}
        opts = dict(opts, ranges=hr)
        obs.append(Ob("mc.%s.distribution" % model, rdf, "bin centers divide the range evenly; each probability is the fraction of the samples that fall in its bin over the bin width; every sample within the range is counted once", [table],
                      requires=[], claim=(call("obj:%s:table" % model, [theta]), ONE) if not stiff else None, snippets=sn, opts=opts))
    return obs


BONDS = """{ std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let mut rng = rand::thread_rng(); let mut dev: f64 = 0.0; const N: usize = 7; let mut m = [0.0_f64; 12]; let mut cnt = 0.0;
  for _ in 0..4000 { let c: [[f64; 3]; N] = %(base)srandom_configuration::<N>(%(th)s&mut rng); let mut last = [0.0; 3]; let mut bonds = vec![];
    for x in c.iter() { let b = [x[0]-last[0], x[1]-last[1], x[2]-last[2]]; last = *x; dev = dev.max((b.iter().map(|v| v*v).sum::<f64>() - 1.0).abs()); bonds.push(b); }
    let dot = |p: &[f64; 3], q: &[f64; 3]| p[0]*q[0] + p[1]*q[1] + p[2]*q[2];
    let e = %(base)srandom_nondimensional_end_to_end_length::<N>(%(th)s&mut rng); if !(e >= 0.0 && e <= 7.0 + 1e-9) { dev = dev.max(1.0); }
    %(test)s } 1.0 + dev })).unwrap_or(9.0) }"""
SPHERE_T = """for b in bonds.iter() { for i in 0..3 { m[i] += b[i]*b[i]; m[3+i] += b[i]; m[6+i] += b[i].powi(4); m[9+i] += b[i]*b[(i+1)%%3]; } cnt += 1.0; }
    if cnt > 27999.0 { for i in 0..3 { if (m[i]/cnt - 1.0/3.0).abs() > 0.02 || (m[3+i]/cnt).abs() > 0.04 || (m[6+i]/cnt - 0.2).abs() > 0.02 || (m[9+i]/cnt).abs() > 0.02 { dev = dev.max(0.5); } } }""".replace("%%", "%")
ANGLE_T = """dev = dev.max((bonds[0][0] - a[0].cos()).abs()); for i in 1..N { dev = dev.max((dot(&bonds[i-1], &bonds[i]) - a[0].cos()).abs()); }
    for i in 2..N { let w = dot(&bonds[i-2], &bonds[i]) - a[0].cos().powi(2); m[0] += w; m[1] += w*w; cnt += 1.0; }
    if cnt > 19999.0 { let s2 = a[0].sin().powi(2); if (m[0]/cnt).abs() > 0.04*s2 + 1e-9 || (m[1]/cnt - s2*s2/2.0).abs() > 0.03*s2*s2 + 1e-9 { dev = dev.max(0.5); } }"""


LENGTH = """{ std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let mut rng = rand::thread_rng(); let mut dev: f64 = 0.0; let c: f64 = a.get(0).map_or(0.0, |t| t.cos()); let mut m = [0.0_f64; 2];
  for _ in 0..20000 { let x = %(base)srandom_nondimensional_end_to_end_length::<5>(%(th)s&mut rng); let y = %(base)srandom_nondimensional_end_to_end_length::<4>(%(th)s&mut rng);
    if !(x >= 0.0 && x <= 5.0 + 1e-9 && y >= 0.0 && y <= 4.0 + 1e-9) { dev = 1.0; } m[0] += x*x/20000.0; m[1] += y*y/20000.0; 
    let z = %(base)srandom_nondimensional_end_to_end_length::<1>(%(th)s&mut rng); dev = dev.max((z - 1.0).abs()); }
  let mean = |n: f64| -> f64 { %(mean)s }; for (i, n) in [(0, 5.0), (1, 4.0)] { if (m[i] - mean(n)).abs() > 0.04*n*n/4.0 { dev = dev.max(0.5); } } 1.0 + dev })).unwrap_or(9.0) }"""
MEAN = {False: "n + 0.0*c", True: "n*(1.0 + c)/(1.0 - c) - 2.0*c*(1.0 - c.powf(n))/(1.0 - c).powi(2)"}
GMAX = {False: "1.0 + 0.0*n*c", True: "if n as usize % 2 == 0 { ((1.0 + c)/2.0).sqrt() } else { ((n*n + 1.0 + (n*n - 1.0)*c)/2.0).sqrt()/n }"}
TABLE = """{ std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let mut rng = rand::thread_rng(); let mut dev: f64 = 0.0; let c: f64 = a.get(0).map_or(0.0, |t| t.cos()); const B: usize = 8; let m = 8000; let gmax = |n: f64| -> f64 { %(gmax)s };
  macro_rules! go { ($n:literal) => { { let n = $n as f64; let (x, p) = %(base)snondimensional_equilibrium_radial_distribution::<B, $n>(%(th)sm); let g = gmax(n); let w = g/(B as f64); let mut q = [0.0_f64; B];
    for _ in 0..m { let s = %(base)srandom_nondimensional_end_to_end_length::<$n>(%(th)s&mut rng)/n; q[((s/w) as usize).min(B - 1)] += 1.0/(m as f64); }
    let mut t = 0.0; for i in 0..B { dev = dev.max((x[i] - w*(i as f64 + 0.5)).abs()); let f = p[i]*w; t += f; if !(f >= 0.0) || (f - q[i]).abs() > 0.05 { dev = dev.max(0.5); }
      let k = f*(m as f64); dev = dev.max((k - k.round()).abs()/(m as f64)); } if !((t - 1.0).abs() < 1e-9) { dev = dev.max(0.5); } } } }
  go!(4); go!(5); go!(7); 1.0 + dev })).unwrap_or(9.0) }"""


def sampler(ex, f, args, st):
    """the length of the chain sampled: any number that its contract allows"""
    v = var("sample%d" % len(ex.samples))
    ex.samples.append((v, [a for a in args if not isinstance(a, RngV)]))
    return V(v, "f64")


def replace(e, f, memo=None):
    """e with the calls that f knows replaced"""
    memo = {} if memo is None else memo
    r = memo.get(e.id)
    if r is None:
        r = f(e)
        if r is None:
            r = e if not e.args else rebuild(e, [replace(a, f, memo) for a in e.args])
        memo[e.id] = r
    return r


NB, NL, NS, TH, GM = var("NUMBER_OF_BINS", "Z"), var("NUMBER_OF_LINKS", "Z"), var("number_of_samples", "Z"), var("theta"), var("gamma_max")


class Histogram:
    """the distribution tabulated from any samples that the contract of the chain length allows"""

    def __init__(self, model, r, ex):
        self.model = model
        T = ex.tally
        if T is None or not isinstance(r, TupV) or len(r.items) != 2 or not all(isinstance(x, SeqV) for x in r.items):
            raise Unsupported("the distribution is not a pair of arrays tabulated from samples")
        if len(T["samples"]) != 1 or T["bins"] is not NB or T["n"] is not NS or any(x.n is not NB for x in r.items):
            raise Unsupported("number of samples or bins")
        j = T["bin"]
        self.g = T["samples"][0][0]
        self.args = [a.e for a in T["samples"][0][1] if isinstance(a, V)]
        self.dist = [a for a in T["samples"][0][1] if isinstance(a, DistV)]
        self.center, self.prob = (r.items[i].f(j).e for i in (0, 1))
        self.cond, self.init, self.j = T["cond"], T["init"], j
        self.panics = [o.pc for o in T["panics"] if o.cond is FALSE]
        if len(self.panics) != len(T["panics"]):
            raise Unsupported("assertion while sampling")
        c = call("count", [j], "Z")
        self.cvar = var("c_", "Z")
        self.prob = replace(self.prob, lambda e: self.cvar if e is c else None)
        if any(n.op == "call" for e in (self.prob, self.center, self.cond, self.init, *self.panics) for n in nodes(e)):
            raise Unsupported("what the distribution depends on")
        N = i2r(NL)
        ct = fn("cos", TH)
        even = div(fn("sqrt", add(const(2), mul(const(2), ct))), const(2))
        odd = div(fn("sqrt", div(add(add(mul(N, N), ONE), mul(sub(mul(N, N), ONE), ct)), const(2))), N)
        self.G = {"fjc": ONE, "frc": ite(eq(imod(NL, iconst(2)), iconst(0)), even, odd)}.get(model, GM)

    def sides(self):
        """both sides as the check by evaluation compares them"""
        u, b = var("u_"), i2r(self.j)
        m = {self.g: mul(u, mul(i2r(NL), self.G))}
        ind = lambda c: ite(c, ONE, ZERO)
        lhs = add(add(self.center, mul(const(3), self.prob)), add(mul(const(5), ind(subst(self.cond, m))), i2r(self.init)))
        for p in self.panics:
            lhs = add(lhs, mul(const(7), ind(subst(p, m))))
        for d in self.dist:
            lhs = add(lhs, add(mul(const(11), sub(d.mean, ONE)), mul(const(13), sub(d.sd, div(ONE, fn("sqrt", var("kappa")))))))
        for a in self.args:
            lhs = add(lhs, mul(const(17), sub(a, TH)))
        spec = add(div(mul(self.G, add(b, const(F(1, 2)))), i2r(NB)), mul(const(3), div(i2r(self.cvar), div(mul(self.G, i2r(NS)), i2r(NB)))))
        rhs = add(spec, mul(const(5), ind(lt(u, div(add(b, ONE), i2r(NB))))))
        m = {self.j: var("b_", "Z")}
        return subst(lhs, m), subst(rhs, m)

    def screen_form(self):
        return self.lhs, self.rhs, self.reqs, {}

    def complete(self, env):
        return env

    def theorem(self, name, samples, seed):
        class P:
            def prove(self, l, r):
                return ""
        return P()

    def text(self, th, btext, name):
        raw = Raw(lean.Theorem("x", [], []))
        m = {NB: var("NB_", "N"), NL: var("N_", "N"), NS: var("M_", "N"), self.j: var("b_", "N"), self.g: var("g_")}

        def t(e):
            s = raw.t(subst(e, m))
            return re.sub(r"\bg_\b", "(g_ s_)", re.sub(r"\bc_\b", "(c_ M_ b_)", s))
        stiff, frc = self.model.startswith("e"), self.model == "frc"
        G = {"fjc": "(1 : ℝ)", "frc": "(PVM.extent N_ theta)"}.get(self.model, "gamma_max")
        hy = ["(N_ NB_ : ℕ)", "(hN_ : 0 < N_)", "(hNB_ : 0 < NB_)"]
        if frc:
            hy += ["(theta : ℝ)", "(ht1_ : 0 < theta)", "(ht2_ : theta < Real.pi)"]
        if stiff:
            hy += ["(gamma_max : ℝ)", "(hG_ : 0 < gamma_max)"]
        reach = {"fjc": "(N_ : ℝ)", "frc": "PVM.stretch N_ (Real.cos theta)"}.get(self.model, "gamma_max * N_")
        hy += ["(g_ : ℕ → ℝ)", "(hg_ : ∀ s_, 0 ≤ g_ s_ ∧ g_ s_ ≤ %s)" % reach, "(c_ : ℕ → ℕ → ℤ)", "(h0_ : ∀ b_ < NB_, c_ 0 b_ = %s)" % t(self.init)]
        # the code's own expression for the range of the histogram
        code, hG = None, ""
        if frc:
            pts = []
            for i, (n, th0) in enumerate(((4, 0.7), (5, 0.7), (7, 1.9), (2, 2.5))):
                pts.append({NL.x: n, NB.x: 6, NS.x: 11, "theta": mpf(th0), self.j.x: 2, "c_": 3, self.g.x: mpf(1)})
            for n in nodes(self.center) + nodes(self.cond):
                if n.sort == "R" and n.op != "const" and n.op != "mul" and all(near(evaluate(n, p), evaluate(self.G, p)) for p in pts):
                    code = n
                    break
            if code is None:
                raise Unsupported("the range of the histogram")
            g = t(code)
            hG = """have hGc_ : %s = %s := by
    rcases Nat.mod_two_eq_zero_or_one N_ with h_ | h_
    · have hz_ : (N_ : ℤ).tmod 2 = 0 := by rw [Int.tmod_eq_emod_of_nonneg (by positivity)]; omega
      rw [PVM.extent_even hN_ h_]
      try simp only [PV.ite, hz_, eq_self_iff_true, zero_ne_one, one_ne_zero, not_true, not_false_iff, if_true, if_false]
      try simp only [Int.cast_natCast, Real.cos_pi_sub]
      first | done | rfl | ring1 | (ring_nf; done) | (norm_num; ring_nf; done)
    · have hz_ : (N_ : ℤ).tmod 2 = 1 := by rw [Int.tmod_eq_emod_of_nonneg (by positivity)]; omega
      rw [PVM.extent_odd h_]
      try simp only [PV.ite, hz_, eq_self_iff_true, zero_ne_one, one_ne_zero, not_true, not_false_iff, if_true, if_false]
      try simp only [Int.cast_natCast, Real.cos_pi_sub]
      first | done | rfl | ring1 | (ring_nf; done) | (norm_num; ring_nf; done)
  """ % (g, G)
        P = t(self.cond)
        hy.append("(hs_ : ∀ s_ b_, b_ < NB_ → c_ (s_+1) b_ = c_ s_ b_ + (if P_ s_ b_ ∧ ∀ i_ < b_, ¬ P_ s_ i_ then 1 else 0))")
        hy.insert(len(hy) - 1, "(P_ : ℕ → ℕ → Prop) (hP_ : ∀ s_ b_, b_ < NB_ → (P_ s_ b_ ↔ %s))" % P)
        w = "(%s / NB_)" % G
        x = "(g_ s_ / N_)"
        inb = "%s * b_ ≤ %s ∧ %s < %s * (b_ + 1)" % (w, x, x, w)
        pans = "".join("(∀ s_ b_ : ℕ, b_ < NB_ → ¬ (%s)) ∧ " % t(p) for p in self.panics)
        rw = "(try simp only [hGc_])" if frc else "skip"
        gpos = {"fjc": "one_pos", "frc": "PVM.extent_pos hN_ ht1_ ht2_"}.get(self.model, "hG_")
        xG = {"fjc": "rw [div_le_iff₀ hNr_, one_mul]; exact (hg_ s_).2", "frc": "rw [PVM.extent]; exact div_le_div_of_nonneg_right (hg_ s_).2 hNr_.le"}.get(self.model, "rw [div_le_iff₀ hNr_]; exact (hg_ s_).2")
        return """open Classical in
theorem %(name)s %(hy)s :
    %(pans)s(∀ b_ : ℕ, b_ < NB_ → %(center)s = %(w)s * (b_ + 1/2)) ∧
    (∀ M_ : ℕ, 0 < M_ → (∀ b_ : ℕ, b_ < NB_ → 0 ≤ %(prob)s ∧ %(prob)s * %(w)s = ((Finset.filter (fun s_ => %(inb)s) (Finset.range M_)).card : ℝ) / M_) ∧
      ∑ b_ ∈ Finset.range NB_, %(prob)s * %(w)s = ((Finset.filter (fun s_ => %(x)s < %(G)s) (Finset.range M_)).card : ℝ) / M_) := by
  have hNr_ : (0:ℝ) < N_ := by exact_mod_cast hN_
  have hBr_ : (0:ℝ) < NB_ := by exact_mod_cast hNB_
  have hGp_ : 0 < %(G)s := %(gpos)s
  %(hG)shave hw_ : 0 < %(w)s := div_pos hGp_ hBr_
  have hx_ : ∀ s_, 0 ≤ %(x)s := fun s_ => div_nonneg (hg_ s_).1 hNr_.le
  have hxG_ : ∀ s_, %(x)s ≤ %(G)s := by
    intro s_; %(xG)s
  have hPb_ : ∀ s_ b_, b_ < NB_ → (P_ s_ b_ ↔ %(x)s < %(w)s * (b_ + 1)) := by
    intro s_ b_ hb_
    rw [hP_ s_ b_ hb_]
    %(rw)s
    try simp only [Int.cast_natCast]
    have h1_ := hxG_ s_
    have h2_ : %(w)s * (b_ + 1) = %(Gb)s / NB_ := by ring
    refine ⟨fun h_ => ?_, fun h_ => ?_⟩
    · rw [h2_]
      first | exact h_ | exact h_.2 | exact h_.1 | linarith | (obtain ⟨h_, h3_⟩ := h_; linarith)
    · rw [h2_] at h_
      first | exact h_ | exact ⟨h1_, h_⟩ | exact ⟨not_lt.2 h1_, h_⟩ | linarith | (refine ⟨?_, ?_⟩ <;> linarith) | (refine ⟨not_lt.2 ?_, ?_⟩ <;> linarith)
  have H_ := PVM.histogram NB_ %(w)s hw_ (fun s_ => %(x)s) hx_ P_ hPb_ c_ (fun b_ hb_ => by rw [h0_ b_ hb_]) hs_
  have hp_ : ∀ M_ : ℕ, 0 < M_ → ∀ b_ : ℕ, %(prob)s * %(w)s = (c_ M_ b_ : ℝ) / M_ := by
    intro M_ hM_ b_
    have hMr_ : (0:ℝ) < M_ := by exact_mod_cast hM_
    %(rw)s
    try simp only [Int.cast_natCast]
    have := hGp_.ne'
    field_simp
  refine %(tup)s⟨?_, fun M_ hM_ => ⟨?_, ?_⟩⟩%(close)s
  %(pproofs)s· intro b_ hb_
    %(rw)s
    try simp only [Int.cast_natCast]
    first | ring1 | (field_simp; ring1) | field_simp
  · intro b_ hb_
    have h_ : %(prob)s * %(w)s = ((Finset.filter (fun s_ => %(inb)s) (Finset.range M_)).card : ℝ) / M_ := by
      rw [hp_ M_ hM_ b_, (H_ M_).1 b_ hb_]; push_cast; rfl
    refine ⟨?_, h_⟩
    refine nonneg_of_mul_nonneg_left ?_ hw_
    rw [h_]; positivity
  · rw [Finset.sum_congr rfl fun b_ _ => hp_ M_ hM_ b_, ← Finset.sum_div]
    congr 1
    have h_ := (H_ M_).2
    have he_ : %(w)s * (NB_ : ℝ) = %(G)s := by field_simp
    rw [he_] at h_
    exact_mod_cast h_
""" % {"name": name, "hy": "\n    ".join(hy), "pans": pans, "center": t(self.center), "prob": t(self.prob), "w": w, "inb": inb, "x": x, "G": G, "Gb": "((b_ : ℝ) + 1)" if self.model == "fjc" else "(%s * (b_ + 1))" % G, "gpos": gpos, "hG": hG, "xG": xG, "rw": rw,
            "tup": "⟨?_, " * len(self.panics), "close": "⟩" * len(self.panics),
            "pproofs": "· intro s_ b_ hb_\n    %s\n    try simp only [Int.cast_natCast]\n    have h1_ := hxG_ s_\n    first | exact not_lt.2 h1_ | (intro h_; linarith) | (rintro ⟨_, h_⟩; linarith)\n  " % rw * len(self.panics)}
