"""Lean statements and proofs for equalities between extracted expressions.

An obligation  requires ⊢ A = B  is printed as a Lean theorem in which every non-rational operation of
the two expression graphs has a name and a defining equation (a let-free rendering of the shared graph).
The proof is generated; Lean's kernel decides."""
import random
import re
import mpmath
from mpmath import mpf
from . import ir
from .ir import *
from .num import Ev, evaluate, close, Undefined

RING = {"const", "var", "add", "sub", "neg", "mul", "div", "iconst", "iadd", "isub", "imul", "ineg", "i2r", "app", "bvar"}

LEAN_FN = {
    "exp": "Real.exp", "ln": "Real.log", "sqrt": "Real.sqrt", "sinh": "Real.sinh", "cosh": "Real.cosh", "tanh": "Real.tanh",
    "sin": "Real.sin", "cos": "Real.cos", "tan": "Real.tan", "asin": "Real.arcsin", "acos": "Real.arccos", "atan": "Real.arctan",
    "asinh": "Real.arsinh", "pi": "Real.pi",
}
LEAN_INLINE = {"abs": "|{}|", "log10": "(Real.logb 10 {})", "log2": "(Real.logb 2 {})", "ceil": "((⌈{}⌉ : ℤ) : ℝ)", "floor": "((⌊{}⌋ : ℤ) : ℝ)"}

KW = {"fun", "let", "have", "in", "at", "from", "end", "where", "if", "then", "else", "by", "λ", "Σ", "Π"}


def san(n):
    n = re.sub(r"[^A-Za-z0-9_]", "_", n)
    if n in KW or not re.match(r"[A-Za-z]", n):
        n = "v_" + n
    return n


def is_ring(e):
    if e.op in RING:
        return True
    if e.op == "powi" and e.args[1].op == "iconst":
        return True
    return False


class At:
    """a named operation"""

    def __init__(self, name, lifted, op, x, args, sort, node):
        self.name, self.lifted, self.op, self.x, self.args, self.sort, self.node = name, lifted, op, x, args, sort, node


class Fail(Exception):
    pass


def app(name, lifted, sort):
    if not lifted:
        return var(name, sort)
    return mk("app", tuple(lifted), name, sort)


TY = {"R": "ℝ", "Z": "ℤ", "B": "Prop", "N": "ℕ"}     # N: bound index of a sum or product


class NEv(Ev):
    """numeric evaluation of named expressions: names get independent values"""

    def __init__(self, env, rnd):
        Ev.__init__(self, env)
        self.rnd = rnd
        self.apps = {}

    def _ev(self, e):
        if e.op == "app":
            xs = tuple(self.ev(a) for a in e.args)
            k = (e.x,) + xs
            if k not in self.apps:
                self.apps[k] = self.rnd(e.sort)
            return self.apps[k]
        if e.op == "var" and e.x not in self.env:
            self.env[e.x] = self.rnd(e.sort)
        return Ev._ev(self, e)


class Theorem:
    def __init__(self, name, requires, samples, seed=1, prefix=""):
        """requires: IR bools; samples: list of envs satisfying them"""
        self.name = name
        self.requires = list(requires)
        self.samples = samples
        self.ats = {}        # node id -> At
        self.byname = {}
        self.order = []
        self.rnd = random.Random("%s/%s" % (name, seed))
        self.short = {}
        self.opaque = {}     # opaque symbol -> lean type
        self.rep = {}        # name -> IR (one step)
        self.lines = []
        self.n = 0
        self.kv = {}
        self.hyp_names = []
        self.extra = []
        self.absmemo = {}
        self.vals = {}
        self.known_pos = set()
        self.logdone, self.expbase, self.sqrtdone, self.sumdone = set(), set(), set(), set()
        self.lindone = set()
        self.nzc = {}
        self.extra_reqs = []     # (name, text): definedness requirements used by the proof
        self.rel = False         # use relations between names (squares of roots, hyperbolic functions)
        self.share = set()       # rational subexpressions that get a name
        self.elims = []          # (variable or symbol, value, proof that the coefficient is not zero, requirement, coefficient is one)

    # --- naming ------------------------------------------------------------
    def kvar(self, depth, sort):
        k = (depth, sort)
        if k not in self.kv:
            self.kv[k] = var({"N": "k§%d", "Z": "i§%d"}.get(sort, "u§%d") % depth, sort)
        return self.kv[k]

    def is_kvar(self, v):
        return "§" in v.x

    def lifted_of(self, e):
        return sorted([v for v in free_vars(e) if self.is_kvar(v)], key=lambda v: v.x)

    def abs(self, e, depth=0, inner=False):
        """named form of e"""
        key = (e.id, depth, inner)
        r = self.absmemo.get(key)
        if r is not None:
            return r
        if e.id in self.share and not inner:
            r = self.atom(e, depth)
        elif is_ring(e) and e.op != "bvar":
            r = e if not e.args else rebuild(e, [self.abs(a, depth) for a in e.args])
        elif e.op in ("lt", "le", "eq", "not", "and", "or", "bconst"):
            r = e if not e.args else mk(e.op, [self.abs(a, depth) for a in e.args], e.x, e.sort)
        else:
            r = self.atom(e, depth)
        self.absmemo[key] = r
        return r

    def atom(self, e, depth):
        a = self.ats.get(e.id)
        if a is None:
            x = e.x
            if e.id in self.share:
                self.n += 1
                a = At("t%d" % self.n, self.lifted_of(e), "named", None, (self.abs(e, depth, True),), e.sort, e)
                self.ats[e.id] = a
                self.byname[a.name] = a
                self.order.append(a)
                return app(a.name, a.lifted, a.sort)
            if e.op in ("sum", "prod"):
                n = self.abs(e.args[0], depth)
                k = self.kvar(depth, "N")
                body = self.abs(inst(e.args[1], e.x[0], k), depth + 1)
                args = (n, ("lam", [k], body))
                x = None
            elif e.op in ("call", "loop"):
                args = []
                for b in e.args:
                    if b.op == "lam":
                        ks, d = [], depth
                        while b.op == "lam":
                            k = self.kvar(d, b.x[1])
                            ks.append(k)
                            b = inst(b.args[0], b.x[0], k)
                            d += 1
                        args.append(("lam", ks, self.abs(b, d)))
                    else:
                        args.append(self.abs(b, depth))
                args = tuple(args)
            else:
                args = tuple(self.abs(b, depth) for b in e.args)
            self.n += 1
            a = At("t%d" % self.n, self.lifted_of(e), e.op, x, args, e.sort, e)
            self.ats[e.id] = a
            self.byname[a.name] = a
            self.order.append(a)
        return app(a.name, a.lifted, a.sort)

    # --- printing ------------------------------------------------------------
    def v(self, v):
        return san(v.x.replace("§", "x"))

    def t(self, e):
        o, A = e.op, e.args
        t = self.t
        if o == "const":
            if e.x.denominator == 1:
                return "(%d : ℝ)" % e.x.numerator if e.x >= 0 else "(-%d : ℝ)" % -e.x.numerator
            if e.x < 0:
                return "(-(%d / %d) : ℝ)" % (-e.x.numerator, e.x.denominator)
            return "(%d / %d : ℝ)" % (e.x.numerator, e.x.denominator)
        if o == "iconst":
            return "(%d : ℤ)" % e.x if e.x >= 0 else "(-%d : ℤ)" % -e.x
        if o == "bconst":
            return "True" if e.x else "False"
        if o == "var":
            return "(%s : ℤ)" % self.v(e) if e.sort == "N" else self.v(e)
        if o == "app":
            return "(" + e.x + " " + " ".join(self.v(k) if k.op == "var" else t(k) for k in A) + ")"
        if o in ("add", "iadd"):
            return "(%s + %s)" % (t(A[0]), t(A[1]))
        if o in ("sub", "isub"):
            return "(%s - %s)" % (t(A[0]), t(A[1]))
        if o in ("mul", "imul"):
            return "(%s * %s)" % (t(A[0]), t(A[1]))
        if o == "div":
            return "(%s / %s)" % (t(A[0]), t(A[1]))
        if o in ("neg", "ineg"):
            return "(-%s)" % t(A[0])
        if o == "powi" and A[1].op == "iconst":
            if A[1].x >= 0:
                return "(%s ^ (%d:ℕ))" % (t(A[0]), A[1].x)
            if A[1].x == -1:
                return "(%s)⁻¹" % t(A[0])
            return "(%s ^ (%d:ℕ))⁻¹" % (t(A[0]), -A[1].x)
        if o == "i2r":
            return "((%s : ℤ) : ℝ)" % self.v(A[0]) if A[0].op == "var" else "((%s : ℤ) : ℝ)" % t(A[0])
        if o == "lt":
            return "(%s < %s)" % (t(A[0]), t(A[1]))
        if o == "le":
            return "(%s ≤ %s)" % (t(A[0]), t(A[1]))
        if o == "eq":
            if A[0].sort == "B":
                return "(%s ↔ %s)" % (t(A[0]), t(A[1]))
            return "(%s = %s)" % (t(A[0]), t(A[1]))
        if o == "not":
            return "(¬ %s)" % t(A[0])
        if o == "and":
            return "(%s ∧ %s)" % (t(A[0]), t(A[1]))
        if o == "or":
            return "(%s ∨ %s)" % (t(A[0]), t(A[1]))
        raise Fail("cannot print " + o)

    def fn_head(self, a):
        """Lean function of an atom"""
        if a.op == "fn":
            if a.x in LEAN_FN:
                return LEAN_FN[a.x]
            if a.x in LEAN_INLINE:
                return "(fun (x : ℝ) => %s)" % LEAN_INLINE[a.x].format("x")
            return self.opq("F_" + a.x, a)
        if a.op == "named":
            return "(fun (x : ℝ) => x)"
        if a.op == "powf":
            return "(fun (x y : ℝ) => x ^ y)"
        if a.op == "powi":
            return "(fun (x : ℝ) (n : ℤ) => x ^ n)"
        if a.op in ("sum", "prod"):
            return "PV." + a.op
        if a.op == "idiv":
            return "(fun (x y : ℤ) => Int.tdiv x y)"
        if a.op == "imod":
            return "(fun (x y : ℤ) => Int.tmod x y)"
        if a.op == "ipow":
            return "(fun (x y : ℤ) => x ^ y.toNat)"
        if a.op == "ite":
            return "PV.ite" if a.sort == "R" else "PV.iteZ"
        if a.op == "call":
            return self.opq("C_" + a.x, a)
        if a.op == "loop":
            return self.opq("L_%s_%d_%d_%d" % (a.x[0], a.x[1], a.x[2], len(a.args)), a)
        raise Fail("no Lean function for " + a.op)

    def opq(self, name, a):
        name = san(name)
        ty = []
        for b in a.args:
            if isinstance(b, tuple):
                ty.append("(" + " → ".join([TY[k.sort] for k in b[1]] + [TY[b[2].sort]]) + ")")
            else:
                ty.append(TY[b.sort])
        ty = " → ".join(ty + [TY[a.sort]])
        name = self.short.setdefault(name, "f%d" % (len(self.short) + 1))
        if self.opaque.setdefault(name, ty) != ty:
            k = 2
            while self.opaque.setdefault(name + "_%d" % k, ty) != ty:
                k += 1
            name = name + "_%d" % k
        return name

    def targ(self, b, norm=False):
        if isinstance(b, tuple):
            body = self.norm(b[2]) if norm else b[2]
            return "(fun %s => %s)" % (" ".join("(%s : %s)" % (self.v(k), TY[k.sort]) for k in b[1]), self.t(body))
        return self.t(self.norm(b) if norm else b)

    def defn(self, a, norm=False):
        h = self.fn_head(a)
        if not a.args:
            return h
        if a.op == "fn" and a.x in LEAN_INLINE:
            return LEAN_INLINE[a.x].format(self.targ(a.args[0], norm))
        if a.op == "named":
            return self.targ(a.args[0], norm)
        if a.op == "powf":
            return "(%s ^ %s)" % tuple(self.targ(b, norm) for b in a.args)
        if a.op == "powi":
            return "(%s ^ (%s : ℤ))" % tuple(self.targ(b, norm) for b in a.args)
        if a.op == "idiv":
            return "(Int.tdiv %s %s)" % tuple(self.targ(b, norm) for b in a.args)
        if a.op == "imod":
            return "(Int.tmod %s %s)" % tuple(self.targ(b, norm) for b in a.args)
        if a.op == "ipow":
            return "(%s ^ (%s).toNat)" % tuple(self.targ(b, norm) for b in a.args)
        return h + " " + " ".join(self.targ(b, norm) for b in a.args)

    # --- normalisation by proved facts ---------------------------------------------
    def norm(self, e, memo=None):
        if memo is None:
            memo = {}
        r = memo.get(e.id)
        if r is not None:
            return r
        if e.op in ("var", "app") and e.x in self.rep:
            lifted, body = self.rep[e.x]
            if lifted:
                body = subst(body, dict(zip(lifted, e.args)))
            r = self.norm(body, memo)
        elif not e.args:
            r = e
        else:
            r = rebuild(e, [self.norm(a, memo) for a in e.args])
        memo[e.id] = r
        return r

    # --- numeric classification ---------------------------------------------------------
    def value(self, e_node):
        """fingerprint of an original node (its lifted variables get fixed sample values)"""
        r = self.vals.get(e_node.id)
        if r is None:
            r = []
            for i, s in enumerate(self.samples):
                env = s
                lv = self.lifted_of(e_node)
                if lv:
                    env = dict(s)
                    for v in lv:
                        d = int(v.x.split("§")[1])
                        env[v.x] = (i * 7 + d * 3 + i * i) % 5 if v.sort in "ZN" else mpf(1 + ((i * 37 + d * 11) % 29)) / 17
                    r.append(evaluate(e_node, env))
                else:
                    r.append(self.evs(i).safe(e_node))
            self.vals[e_node.id] = r
        return r

    def evs(self, i):
        if not hasattr(self, "_evs"):
            self._evs = [SafeEv(s) for s in self.samples]
        return self._evs[i]

    def same_value(self, a, b):
        x, y = self.value(a), self.value(b)
        ok = 0
        for p, q in zip(x, y):
            if p is None or q is None:
                continue
            if not close(p, q):
                return False
            ok += 1
        return ok > 0

    # --- independent check -------------------------------------------------------------
    def indep(self, a, b, tries=4, forced=()):
        """are a and b (named forms) equal as rational expressions in the names (forced: values of some names)?"""
        if not forced:
            a, b = self.norm(a), self.norm(b)
        if a is b:
            return True
        good = 0
        for i in range(tries * 3):
            rnd = random.Random(i * 77 + 5)

            def rv(sort):
                return mpf(rnd.randint(300, 2300)) / 1000 + mpf(rnd.random()) / 1000 if sort == "R" else rnd.randint(2, 9) if sort in "ZN" else rnd.random() < 0.5
            ev = NEv({}, rv)
            try:
                for n, e in forced:
                    ev.env[n] = ev.ev(e)
                x, y = ev.ev(a), ev.ev(b)
            except (Undefined, ZeroDivisionError, OverflowError):
                continue
            if not close(x, y) and not (not isinstance(x, bool) and abs(x - y) < mpf(10) ** -28):
                return False
            good += 1
            if good >= tries:
                return True
        return good > 0

    # --- proof steps ------------------------------------------------------------------------
    def out(self, s):
        self.lines.append("  " + s)

    def fresh(self, p="e"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def arg_eq(self, x, y, cond=None):
        """proof term text of x = y (named forms), or None when syntactically equal after normalisation; raises Fail"""
        if isinstance(x, tuple) or isinstance(y, tuple):
            if not (isinstance(x, tuple) and isinstance(y, tuple) and len(x[1]) == len(y[1])):
                raise Fail("function argument")
            bx, by = x[2], y[2]
            if any(k is not l for k, l in zip(x[1], y[1])):
                by = subst(by, dict(zip(y[1], x[1])))
            if self.norm(bx) is self.norm(by):
                return None
            if not self.indep(bx, by):
                raise Fail("bodies differ")
            h = self.fresh("a")
            nx, ny = self.norm(bx), self.norm(by)
            outer = sorted({v for v in set(self.lifted_of(nx)) | set(self.lifted_of(ny)) if v not in x[1]}, key=lambda v: v.x)
            bs = " ".join("(%s : %s)" % (self.v(k), TY[k.sort]) for k in outer + list(x[1]))
            self.out("have %s : ∀ %s, %s = %s := by intros; pv_ring" % (h, bs, self.t(nx), self.t(ny)))
            return "(%s %s)" % (h, " ".join(self.v(k) for k in outer)) if outer else h
        nx, ny = self.norm(x), self.norm(y)
        if nx is ny:
            return None
        if x.sort == "B":
            return self.iff(nx, ny)
        if not self.indep(nx, ny):
            raise Fail("arguments differ")
        h = self.fresh("a")
        lv = sorted(self.lifted_of(nx) + [v for v in self.lifted_of(ny) if v not in self.lifted_of(nx)], key=lambda v: v.x)
        bs = "".join(" (%s : %s)" % (self.v(k), TY[k.sort]) for k in lv)
        if lv:
            self.out("have %s : ∀%s, %s = %s := by intros; pv_ring" % (h, bs, self.t(nx), self.t(ny)))
            return "(%s %s)" % (h, " ".join(self.v(k) for k in lv))
        self.out("have %s : %s = %s := by pv_ring" % (h, self.t(nx), self.t(ny)))
        return h

    def iff(self, a, b):
        """proof of a ↔ b"""
        if a is b:
            return None
        h = self.fresh("c")
        lv = sorted(set(self.lifted_of(a)) | set(self.lifted_of(b)), key=lambda v: v.x)
        if a.op == b.op and a.op in ("lt", "le"):
            # same comparison with scaled sides: a1-a0 = c*(b1-b0)
            pass
        if self.op_shape(a) != self.op_shape(b):
            raise Fail("conditions differ")
        bs = "".join(" (%s : %s)" % (self.v(k), TY[k.sort]) for k in lv)
        pre = "∀%s, " % bs if lv else ""
        intro = "intros; " if lv else ""
        # prove the sides equal and rewrite
        if a.op in ("lt", "le", "eq") and self.indep(a.args[0], b.args[0]) and self.indep(a.args[1], b.args[1]):
            p, q = self.norm(a.args[0]), self.norm(b.args[0])
            r, s = self.norm(a.args[1]), self.norm(b.args[1])
            self.out("have %s : %s(%s ↔ %s) := by %srw [show %s = %s by pv_ring, show %s = %s by pv_ring]" %
                     (h, pre, self.t(self.norm(a)), self.t(self.norm(b)), intro, self.t(p), self.t(q), self.t(r), self.t(s)))
        else:
            self.out("have %s : %s(%s ↔ %s) := by %spv_iff" % (h, pre, self.t(self.norm(a)), self.t(self.norm(b)), intro))
        if lv:
            return "(%s %s)" % (h, " ".join(self.v(k) for k in lv))
        return h

    def op_shape(self, c):
        return c.op

    def set_rep(self, name, lifted, body):
        self.rep[name] = (lifted, body)

    def merge(self, a, r):
        """prove that atom a equals atom r (same operation) and make r its representative"""
        if a.op != r.op or a.x != r.x or len(a.args) != len(r.args) or a.lifted != r.lifted or a.sort != r.sort:
            raise Fail("different operations")
        mark = len(self.lines)
        try:
            hs = []
            if a.op == "ite":
                c = self.arg_eq(a.args[0], r.args[0])
                x = self.arg_eq(a.args[1], r.args[1])
                y = self.arg_eq(a.args[2], r.args[2])
                p = "%s_congr %s (fun _ => %s) (fun _ => %s)" % (self.fn_head(a), c or "Iff.rfl", x or "rfl", y or "rfl")
            elif a.op in ("sum", "prod"):
                n = self.arg_eq(a.args[0], r.args[0])
                b = self.arg_eq(a.args[1], r.args[1])
                k = self.v(a.args[1][1][0])
                p = "PV.%s_congr %s (fun %s _ _ => %s)" % (a.op, n or "rfl", k, ("%s %s" % (b, k)) if b else "rfl")
            else:
                p = self.fn_head(a)
                first = True
                changed = False
                for x, y in zip(a.args, r.args):
                    e = self.arg_eq(x, y)
                    if isinstance(x, tuple) and e is not None:
                        e = "(by funext %s; exact %s %s)" % (" ".join(self.v(k) for k in x[1]), e, " ".join(self.v(k) for k in x[1]))
                    changed |= e is not None
                    if first:
                        p = "congrArg %s %s" % (p, e or "rfl")
                        if e is None:
                            p = "congrArg %s (Eq.refl %s)" % (self.fn_head(a), self.targ(x, True))
                        first = False
                    else:
                        p = "congr (%s) %s" % (p, e or "(Eq.refl %s)" % self.targ(y, True))
                if not a.args:
                    p = "rfl"
            h = self.fresh("m")
            if a.lifted:
                ks = " ".join(self.v(k) for k in a.lifted)
                self.out("have %s : %s = %s := by funext %s; exact (h_%s %s).trans (Eq.trans (%s) (h_%s %s).symm)" % (h, a.name, r.name, ks, a.name, ks, p, r.name, ks))
            else:
                self.out("have %s : %s = %s := h_%s.trans (Eq.trans (%s) h_%s.symm)" % (h, a.name, r.name, a.name, p, r.name))
            self.out(self.subst_line(h, a, r))
            self.set_rep(a.name, a.lifted, app(r.name, a.lifted, r.sort))
        except Fail:
            del self.lines[mark:]
            raise

    def subst_line(self, h, a, r):
        # `subst h` with h : a = r replaces r by a when r is a variable; we want the opposite
        return "replace %s := %s.symm; subst %s" % (h, h, h)

    # --- the whole proof -----------------------------------------------------------------------
    def classify(self):
        classes = []
        for a in list(self.order):
            if a.name in self.rep:
                continue
            if a.op == "ite" and self.fold_ite(a):
                continue
            done = False
            for c in classes:
                r = c[0]
                if r.sort == a.sort and r.lifted == a.lifted and self.same_value(a.node, r.node):
                    for q in c:
                        try:
                            self.merge(a, q)
                            done = True
                            break
                        except Fail:
                            continue
                    if not done:
                        c.append(a)
                        done = True
                    break
            if not done:
                classes.append([a])
        return classes

    def save(self):
        return (dict(self.rep), list(self.order), dict(self.byname), set(self.known_pos), set(self.logdone), set(self.expbase), set(self.sqrtdone),
                set(self.sumdone) , list(self.extra_reqs), list(self.lines), set(self.lindone))

    def restore(self, s):
        (r, o, b, k, l, e, q, u, x, t, ld) = s
        self.lindone = set(ld)
        self.rep, self.order, self.byname = dict(r), list(o), dict(b)
        self.known_pos, self.logdone, self.expbase, self.sqrtdone, self.sumdone = set(k), set(l), set(e), set(q), set(u)
        self.extra_reqs, self.lines = list(x), list(t)
        self.nzc = {}

    def fold_ite(self, a):
        """conditional whose condition compares equal rational expressions up to constants"""
        from . import rules
        c = self.norm(a.args[0])
        neg = False
        while c.op == "not":
            c, neg = c.args[0], not neg
        if c.op not in ("lt", "le") or c.args[0].sort != "R" or a.lifted:
            return False
        x, y = c.args
        qx, qy = rules.ratio(self, x, ONE), rules.ratio(self, y, ONE)
        if qx is None or qy is None:
            return False
        val = qx < qy if c.op == "lt" else qx <= qy
        h = self.fresh("b")
        self.out("have %s : %s := by rw [show %s = %s by pv_ring, show %s = %s by pv_ring]; norm_num" % (
            h, self.t(c) if val else "¬ " + self.t(c), self.t(x), self.t(const(qx)), self.t(y), self.t(const(qy))))
        if neg:
            val = not val
            if not val:
                self.out("replace %s := not_not_intro %s" % (h, h))
        tgt = self.norm(a.args[1] if val else a.args[2])
        rules.fact(self, a, tgt, "exact (@H).trans (PV.%s_%s %s _ _)" % ("ite" if a.sort == "R" else "iteZ", "pos" if val else "neg", h))
        return True

    def positive_vars(self):
        if not hasattr(self, "_pv"):
            s = set()
            for q in self.requires:
                if q.op == "lt" and q.args[0].op == "const" and q.args[0].x >= 0 and q.args[1].op == "var":
                    s.add(q.args[1].x)
                if q.op == "lt" and q.args[0].op == "iconst" and q.args[0].x >= 0 and q.args[1].op == "var":
                    s.add(q.args[1].x)
                if q.op == "le" and q.args[0].op == "iconst" and q.args[0].x >= 1 and q.args[1].op == "var":
                    s.add(q.args[1].x)
            self._pv = s
        return self._pv

    def defined_log(self, a):
        """name of the requirement 0 < (argument of the logarithm a)"""
        if a.lifted or a not in self.base:
            raise Fail("definedness of an inner logarithm")
        n = "dom_%s" % a.name
        if n not in [x for x, _ in self.extra_reqs]:
            self.extra_reqs.append((n, "0 < %s" % self.t(a.args[0])))
        return n

    def goal_close(self, a, b, what="="):
        na, nb = self.norm(a), self.norm(b)
        if na is nb:
            return "rfl"
        if self.indep(na, nb):
            return "pv_ring"
        return None

    def prove(self, A, B):
        """returns the Lean theorem text; raises Fail when no proof is found"""
        a, b = self.abs(A), self.abs(B)
        if self.rel:
            self.share = {x.node.args[0].id for x in self.order if x.op == "fn" and x.x == "ln" and x.lifted and is_ring(x.node.args[0]) and x.node.args[0].op != "var"}
            if self.share:
                self.ats, self.byname, self.order, self.absmemo, self.n = {}, {}, [], {}, 0
                a, b = self.abs(A), self.abs(B)
        reqs = [self.abs(r) for r in self.requires]
        self.goal = (a, b)
        self.reqs = reqs
        self.elim_named = [(self.abs(v), self.abs(val)) + tuple(r) for v, val, *r in self.elims]
        self.base = list(self.order)
        for i, r in enumerate(self.requires):
            if r.op in ("le", "lt") and r.args[0].op == "iconst" and r.args[1].op == "var" and r.args[1].sort == "Z" and r.args[0].x >= (1 if r.op == "le" else 0):
                v = self.v(r.args[1])
                self.out("have pz_%s : (0 : ℤ) < %s := by omega" % (v, v))
                self.out("have pr_%s : (0 : ℝ) < ((%s : ℤ) : ℝ) := by exact_mod_cast pz_%s" % (v, v, v))
        if self.rel:
            # a quotient that is positive has no factor zero
            from . import rules
            done = []
            for i, r in enumerate(reqs):
                if r.op == "lt" and r.args[0].op == "const" and r.args[0].x == 0 and r.args[1].op in ("mul", "div"):
                    for z, _ in rules.flatten_mul(r.args[1]):
                        if z.op in ("add", "sub") or (z.op in ("app", "var", "i2r") and not any(z is p for p in done)):
                            done.append(z)
                            self.out("have %s : %s ≠ 0 := by intro h0; simp [h0] at req%d" % (self.fresh("hq"), self.t(z), i))
        self.classify()
        self.finish(a, b, 0)
        return self.text()

    def finish(self, a, b, depth):
        na, nb = self.norm(a), self.norm(b)
        if a.sort == "B":
            if na is nb:
                self.out("exact Iff.rfl")
                return
            self.out("exact %s" % self.iff(na, nb))
            return
        from . import rules
        if rules.closes(self, a, b):
            return
        if rules.apply(self, a, b, depth):
            return
        raise Fail("no proof found")

    def binder_vars(self):
        vs = {}
        for e in list(self.goal) + self.reqs:
            for v in free_vars(e):
                vs[v.x] = v
        for at in self.base:
            for x in at.args:
                for v in free_vars(x[2] if isinstance(x, tuple) else x):
                    vs[v.x] = v
        names = {a.name for a in self.base}
        return [v for v in sorted(vs.values(), key=lambda v: v.x) if v.x not in names and not self.is_kvar(v)]

    def text(self):
        binders = []
        defs = []
        for at in self.base:
            d = self.defn(at)
            if at.lifted:
                ks = " ".join("(%s : %s)" % (self.v(k), TY[k.sort]) for k in at.lifted)
                ty = " → ".join([TY[k.sort] for k in at.lifted] + [TY[at.sort]])
                defs.append("    (%s : %s) (h_%s : ∀ %s, %s %s = %s)" % (at.name, ty, at.name, ks, at.name, " ".join(self.v(k) for k in at.lifted), d))
            else:
                defs.append("    (%s : %s) (h_%s : %s = %s)" % (at.name, TY[at.sort], at.name, at.name, d))
        self.opaque_used = list(self.opaque)
        for n, ty in self.opaque.items():
            binders.append("(%s : %s)" % (n, ty))
        for v in self.binder_vars():
            binders.append("(%s : %s)" % (self.v(v), TY[v.sort]))
        # requirements come after every name they mention
        rq = ["    (req%d : %s)" % (i, self.t(r)) for i, r in enumerate(self.reqs)]
        rq += ["    (%s : %s)" % x for x in self.extra_reqs]
        a, b = self.goal
        g = "%s %s %s" % (self.t(a), "↔" if a.sort == "B" else "=", self.t(b))
        return "theorem %s %s\n%s :\n    %s := by\n%s\n" % (self.name, " ".join(binders), "\n".join(defs + rq), g, "\n".join(self.lines))


class SafeEv(Ev):
    def safe(self, e):
        try:
            return self.ev(e)
        except (Undefined, ZeroDivisionError, ValueError, OverflowError, mpmath.libmp.NoConvergence, TypeError, IndexError):
            return None
