"""Proof rules beyond rational arithmetic: logarithms, exponentials, hyperbolic functions, roots, powers,
finite sums and conditionals.  Every rule emits a Lean fact; none is assumed."""
import fractions
from .ir import *
from . import lean as L

Fraction = fractions.Fraction


def names_in(th, *es):
    """atoms reachable from normalised expressions, in definition order"""
    seen = set()

    def go(e):
        for n in nodes(e):
            if n.op in ("var", "app") and n.x in th.byname and n.x not in seen:
                seen.add(n.x)
                a = th.byname[n.x]
                if th.rel and a.op in ("sum", "prod"):
                    go(th.norm(a.args[1][2]))
    for e in es:
        go(th.norm(e))
    if th.rel:
        for v, val, *_ in th.elim_named:
            if th.norm(v).x in {n.x for e in es for n in nodes(th.norm(e)) if n.op in ("var", "app")}:
                go(th.norm(val))
    return [a for a in th.order if a.name in seen]


def concrete(th, e, memo=None):
    """original expression of a named form"""
    if memo is None:
        memo = {}
    r = memo.get(e.id)
    if r is not None:
        return r
    if e.op in ("var", "app") and e.x in th.byname:
        a = th.byname[e.x]
        r = a.node
        if a.lifted:
            r = subst(r, dict(zip(a.lifted, e.args)))
    elif not e.args:
        r = e
    else:
        r = rebuild(e, [concrete(th, x, memo) for x in e.args])
    memo[e.id] = r
    return r


def new_atom(th, op, x, args, sort="R"):
    """introduce a name for op(args) (args: normalised named forms) inside the proof; reuses an equal one"""
    args = tuple(args)
    node = mk(op, tuple(concrete(th, a) for a in args), x, sort)
    lifted = sorted({v for a in args for v in th.lifted_of(a)}, key=lambda v: v.x)
    for a in th.order:
        if a.op == op and a.x == x and a.lifted == lifted and a.name not in th.rep and len(a.args) == len(args) and not any(isinstance(y, tuple) for y in a.args):
            if all(th.norm(p) is q for p, q in zip(a.args, args)):
                return app(th, a)
    th.n += 1
    a = L.At("t%d" % th.n, lifted, op, x, args, sort, node)
    th.byname[a.name] = a
    th.order.append(a)
    ty = " → ".join([L.TY[k.sort] for k in lifted] + [L.TY[sort]])
    if lifted:
        ks = " ".join(th.v(k) for k in lifted)
        kb = " ".join("(%s : %s)" % (th.v(k), L.TY[k.sort]) for k in lifted)
        th.out("obtain ⟨%s, h_%s⟩ : ∃ z : %s, ∀ %s, z %s = %s := ⟨fun %s => _, fun %s => rfl⟩" % (a.name, a.name, ty, kb, ks, th.defn(a), kb, ks))
    else:
        th.out("obtain ⟨%s, h_%s⟩ : ∃ z : %s, z = %s := ⟨_, rfl⟩" % (a.name, a.name, ty, th.defn(a)))
    # try to identify it with an existing one
    for q in th.order:
        if q is not a and q.name not in th.rep and q.op == a.op and q.x == a.x and q.lifted == a.lifted and q.sort == a.sort and th.same_value(a.node, q.node):
            try:
                th.merge(a, q)
                return app(th, q)
            except L.Fail:
                pass
    return app(th, a)


def app(th, a):
    return L.app(a.name, a.lifted, a.sort)


def fact(th, a, body, tac):
    """a(k..) = body, proved by tac (after rewriting nothing); body becomes the representative"""
    h = th.fresh("f")
    t = th.t(body)
    if a.lifted:
        kb = " ".join("(%s : %s)" % (th.v(k), L.TY[k.sort]) for k in a.lifted)
        ks = " ".join(th.v(k) for k in a.lifted)
        pre = ""
        if "positivity" in tac:
            ps = {}
            stack, seen = [body] + [th.norm(x[2] if isinstance(x, tuple) else x) for x in a.args], set()
            while stack:
                for n in nodes(stack.pop()):
                    if n.op == "app" and n.x in th.byname and n.id not in seen:
                        seen.add(n.id)
                        q = th.byname[n.x]
                        if n.x in th.known_pos:
                            ps["p_%s %s" % (n.x, " ".join(th.v(k) for k in n.args))] = 1
                        stack += [subst(th.norm(x), dict(zip(q.lifted, n.args))) for x in q.args if not isinstance(x, tuple)]
            pre = "".join("have := %s; " % p for p in ps)
        th.out("have %s : ∀ %s, %s %s = %s := by intro %s; %s%s" % (h, kb, a.name, ks, t, ks, pre, tac.replace("@H", "h_%s %s" % (a.name, ks))))
        th.out("obtain rfl : %s = fun %s => %s := by funext %s; exact %s %s" % (a.name, kb, t, ks, h, ks))
    else:
        th.out("have %s : %s = %s := by %s" % (h, a.name, t, tac.replace("@H", "h_%s" % a.name)))
        if body.op == "var":
            th.out("replace %s := %s.symm; subst %s" % (h, h, h))
        else:
            th.out("subst %s" % h)
    th.set_rep(a.name, a.lifted, body)


def sign(th, e):
    """'+', '0+' or None: sign that `positivity` can establish"""
    if e.op in ("const", "iconst"):
        return "+" if e.x > 0 else ("0+" if e.x == 0 else None)
    if e.op == "sub":
        return "+" if sub_sign(th, e) else None
    if e.sort == "N":
        return "0+"
    if e.op == "var" or e.op == "app":
        if e.x in th.byname:
            a = th.byname[e.x]
            if a.name in th.known_pos:
                return "+"
            return None
        return "+" if e.x in th.positive_vars() else None
    if e.op == "i2r":
        return "0+" if e.args[0].sort == "N" else sign(th, e.args[0])
    if e.op in ("add", "iadd"):
        s = [sign(th, x) for x in e.args]
        if None in s:
            return "+" if th.rel and e.op == "add" and required(th, e) else None
        return "+" if "+" in s else "0+"
    if e.op in ("mul", "imul", "div"):
        s = [sign(th, x) for x in e.args]
        if None in s:
            return None
        return "+" if s == ["+", "+"] else "0+"
    if e.op == "powi" and e.args[1].op == "iconst":
        s = sign(th, e.args[0])
        if s == "+":
            return "+"
        if e.args[1].x % 2 == 0 and e.args[1].x > 0:
            return "0+"
        return s if e.args[1].x > 0 else None
    return None


def lower_bound(th, e, hs):
    """rational lower bound of e; hs collects proofs for linarith"""
    if e.op == "const":
        return e.x
    if e.op == "add":
        a, b = lower_bound(th, e.args[0], hs), lower_bound(th, e.args[1], hs)
        return None if a is None or b is None else a + b
    if e.op == "var" and e.x in th.byname:
        a = th.byname[e.x]
        x = [th.norm(z) for z in a.args]
        if a.op == "powf" and x[0].op == x[1].op == "const" and x[0].x >= 1 and x[1].x >= 0:
            hs.append("(show (1:ℝ) ≤ %s from by rw [h_%s]; exact Real.one_le_rpow (by norm_num) (by norm_num))" % (a.name, a.name))
            return Fraction(1)
        if a.op == "fn" and a.x == "exp" and x[0].op == "const" and x[0].x >= 0:
            hs.append("(show (1:ℝ) ≤ %s from by rw [h_%s]; exact Real.one_le_exp (by norm_num))" % (a.name, a.name))
            return Fraction(1)
    if sign(th, e) in ("+", "0+"):
        hs.append("(show 0 ≤ %s from by positivity)" % th.t(e))
        return Fraction(0)
    return None


def required(th, e):
    """0 < e is one of the requirements"""
    q = lt(ZERO, e)
    return any(th.norm(r) is q for r in th.reqs)


def sub_sign(th, e):
    """difference that is positive by a requirement or by a bound; leaves the fact where positivity finds it"""
    key = "sub%d" % e.id
    if key in th.known_pos:
        return True
    q = lt(ZERO, e)
    if any(th.norm(r) is q for r in th.reqs):
        return True
    if th.lifted_of(e) or not th.rel:
        return False
    hs = []
    x, y = lower_bound(th, e.args[0], hs), e.args[1]
    if x is None or y.op != "const" or x <= y.x:
        return False
    th.out("have %s : 0 < %s := by linarith [%s]" % (th.fresh("ps"), th.t(e), ", ".join(hs)))
    th.known_pos.add(key)
    return True


def give_signs(th):
    """add 0 < t facts for names that are exponentials, π, roots of positive things, cosh"""
    if th.rel:
        required_signs(th)
    for a in th.order:
        if a.name in th.known_pos or a.name in th.rep:
            continue
        p = None
        if a.op == "fn" and a.x == "exp":
            p = "Real.exp_pos _"
        elif a.op == "fn" and a.x == "pi":
            p = "Real.pi_pos"
        elif a.op == "fn" and a.x == "cosh":
            p = "Real.cosh_pos _"
        elif a.op == "fn" and a.x == "sqrt" and sign(th, th.norm(a.args[0])) == "+":
            p = "Real.sqrt_pos.mpr (by positivity)"
        elif a.op == "powf" and sign(th, th.norm(a.args[0])) == "+":
            p = "Real.rpow_pos_of_pos (by positivity) _"
        elif a.op == "fn" and a.x == "sinh" and sign(th, th.norm(a.args[0])) == "+":
            p = "Real.sinh_pos_iff.mpr (by positivity)"
        elif a.op == "fn" and a.x == "ln" and a.args[0].op == "const" and a.args[0].x > 1:
            p = "Real.log_pos (by norm_num)"
        elif a.op == "named" and sign(th, th.norm(a.args[0])) == "+":
            p = "(by positivity)"
        if p is None:
            continue
        th.known_pos.add(a.name)
        if a.lifted:
            ks = " ".join(th.v(k) for k in a.lifted)
            kb = " ".join("(%s : %s)" % (th.v(k), L.TY[k.sort]) for k in a.lifted)
            th.out("have p_%s : ∀ %s, 0 < %s %s := by intro %s; rw [h_%s]; exact %s" % (a.name, kb, a.name, ks, ks, a.name, p))
        else:
            th.out("have p_%s : 0 < %s := by rw [h_%s]; exact %s" % (a.name, a.name, a.name, p))


def required_signs(th):
    """positive sums from requirements of the form 0 < c * sum"""
    for i, q in enumerate(th.reqs):
        if q.op != "lt" or not is_const(q.args[0], 0) or (q.args[1].op == "var" and q.args[1].x not in th.byname):
            continue
        e = th.norm(q.args[1])
        one, outs, ok = None, ONE, True
        for f, x in flatten_mul(e):
            g = powi(f, iconst(x))
            if sign(th, g) == "+":
                outs = mul(outs, g)
            elif one is None and x == 1 and f.op == "var" and f.x in th.byname:
                one = th.byname[f.x]
            else:
                ok = False
        if ok and one is not None and one.op in ("sum", "call") and not one.lifted and one.name not in th.known_pos and one.name not in th.rep:
            th.known_pos.add(one.name)
            if outs is ONE:
                th.out("have p_%s : 0 < %s := lt_of_lt_of_eq req%d (by pv_ring)" % (one.name, one.name, i))
            else:
                th.out("have p_%s : 0 < %s := (mul_pos_iff_of_pos_left (show (0:ℝ) < %s by positivity)).mp (lt_of_lt_of_eq req%d (by pv_ring))" % (one.name, one.name, th.t(outs), i))


def flatten_mul(e, k=1):
    """[(factor, integer exponent)] of a product"""
    if e.op == "mul":
        return flatten_mul(e.args[0], k) + flatten_mul(e.args[1], k)
    if e.op == "div":
        return flatten_mul(e.args[0], k) + flatten_mul(e.args[1], -k)
    if e.op == "powi" and e.args[1].op == "iconst":
        return flatten_mul(e.args[0], k * e.args[1].x)
    if e.op == "neg":
        return [(const(-1), 1)] + flatten_mul(e.args[0], k)
    return [(e, k)]


class LogExpand:
    def __init__(self, th, a):
        self.th, self.a = th, a
        self.reqname = None

    def nz(self, e):
        """name or proof of e ≠ 0"""
        th = self.th
        if e.op == "const" and e.x != 0:
            return "(by norm_num)"
        key = (e.id, len(th.rep))
        if key in th.nzc:
            return th.nzc[key]
        p = self.nz0(e)
        if th.lifted_of(e):
            return "(%s)" % p
        h = th.fresh("z")
        th.out("have %s : %s ≠ 0 := %s" % (h, th.t(e), p))
        th.nzc[key] = h
        return h

    def nz0(self, e):
        th = self.th
        if sign(th, e) == "+":
            return "by positivity"
        if e.op in ("mul", "div"):
            return ("mul_ne_zero %s %s" if e.op == "mul" else "div_ne_zero %s %s") % (self.nz(e.args[0]), self.nz(e.args[1]))
        if e.op == "powi":
            if e.args[1].op == "iconst" and e.args[1].x == -1:
                return "inv_ne_zero %s" % self.nz(e.args[0])
            z = "pow_ne_zero _ %s" % self.nz(e.args[0])
            return z if e.args[1].x >= 0 else "inv_ne_zero (%s)" % z
        if e.op == "neg":
            return "neg_ne_zero.mpr %s" % self.nz(e.args[0])
        # from the definedness of the logarithm itself
        q = th.defined_log(self.a)
        return "by intro h0; have hq := %s; revert hq; show ¬ (0 < %s); rw [show %s = 0 from h0]; simp" % (q, th.t(th.norm(self.a.args[0])), th.t(e))

    def go(self, e):
        """(expanded named expression, proof of Real.log e = it)"""
        th = self.th
        if e.op == "mul":
            x, p = self.go(e.args[0])
            y, q = self.go(e.args[1])
            return mk("add", (x, y)), "(PV.log_mul' %s %s %s %s)" % (self.nz(e.args[0]), self.nz(e.args[1]), p, q)
        if e.op == "div":
            x, p = self.go(e.args[0])
            y, q = self.go(e.args[1])
            return mk("sub", (x, y)), "(PV.log_div' %s %s %s %s)" % (self.nz(e.args[0]), self.nz(e.args[1]), p, q)
        if e.op == "powi" and e.args[1].op == "iconst":
            n = e.args[1].x
            x, p = self.go(e.args[0])
            if n > 0:
                return mk("mul", (const(n), x)), "(PV.log_pow' %d %d (by norm_num) %s)" % (n, n, p)
            if n == -1:
                return mk("neg", (x,)), "(PV.log_inv' %s)" % p
            return mk("neg", (mk("mul", (const(-n), x)),)), "(PV.log_inv' (PV.log_pow' %d %d (by norm_num) %s))" % (-n, -n, p)
        if e.op == "neg":
            x, p = self.go(e.args[0])
            return x, "(PV.log_neg' %s)" % p
        if e.op == "const" and e.x < 0:
            x, p = self.go(const(-e.x))
            return x, "((by rw [← Real.log_neg_eq_log]; norm_num : Real.log %s = Real.log %s).trans %s)" % (th.t(e), th.t(const(-e.x)), p)
        if e.op == "const":
            if e.x == 1:
                return ZERO, "Real.log_one"
            if e.x.denominator != 1 and e.x.numerator == 1:
                y, q = self.go(const(e.x.denominator))
                return mk("neg", (y,)), "((by rw [show %s = (%s)⁻¹ by norm_num, Real.log_inv] : Real.log %s = - Real.log %s).trans (congrArg (fun z => -z) %s))" % (
                    th.t(e), th.t(const(e.x.denominator)), th.t(e), th.t(const(e.x.denominator)), q)
            if e.x.denominator != 1:
                n, d = const(e.x.numerator), const(e.x.denominator)
                x, p = self.go(n)
                y, q = self.go(d)
                return mk("sub", (x, y)), "(PV.log_div' (by norm_num : %s ≠ 0) (by norm_num : %s ≠ 0) %s %s)" % (th.t(n), th.t(d), p, q)
            n = e.x.numerator
            f = small_factor(n)
            if f is not None and f != n:
                x, p = self.go(const(f))
                y, q = self.go(const(n // f))
                return mk("add", (x, y)), "((congrArg Real.log (by norm_num : %s = %s * %s)).trans (PV.log_mul' (by norm_num) (by norm_num) %s %s))" % (
                    th.t(e), th.t(const(f)), th.t(const(n // f)), p, q)
        if e.op in ("var", "app") and e.x in th.byname:
            a = th.byname[e.x]
            sb = (lambda z: th.norm(subst(z, dict(zip(a.lifted, e.args)) if a.lifted else {})))
            h = "h_%s" % a.name if not a.lifted else "(h_%s %s)" % (a.name, " ".join(th.t(k) for k in e.args))
            if a.op == "fn" and a.x == "exp":
                return sb(a.args[0]), "(PV.log_exp' %s)" % h
            if a.op == "fn" and a.x == "sqrt" and sign(th, sb(a.args[0])) in ("+", "0+"):
                x, p = self.go(sb(a.args[0]))
                return div(x, const(2)), "(PV.log_sqrt' %s (by positivity) %s)" % (h, p)
            if a.op == "powf" and sign(th, sb(a.args[0])) == "+":
                x, p = self.go(sb(a.args[0]))
                return mk("mul", (sb(a.args[1]), x)), "(PV.log_rpow' %s (by positivity) %s)" % (h, p)
            if a.op == "powi":
                x, p = self.go(sb(a.args[0]))
                return mk("mul", (i2r(sb(a.args[1])), x)), "(PV.log_zpow' %s %s)" % (h, p)
        t = new_atom(th, "fn", "ln", [e])
        b = th.byname[t.x]
        hn = "h_%s" % b.name + (" " + " ".join(th.v(k) for k in b.lifted) if b.lifted else "")
        if th.norm(b.args[0]) is e:
            return t, "(%s).symm" % hn
        return t, "(PV.log_eq' (by pv_ring : %s = %s) (%s))" % (th.t(e), th.t(th.norm(b.args[0])), hn)


def small_factor(n):
    if n < 2 or n > 10 ** 7:
        return None
    for p in (2, 3, 5, 7, 11, 13):
        if n % p == 0:
            return p
    return None


def rule_logs(th, a, b):
    done = False
    for at in names_in(th, a, b):
        if at.op == "fn" and at.x == "ln" and at.name not in th.rep and at.name not in th.logdone:
            e = th.norm(at.args[0])
            th.logdone.add(at.name)
            if e.op in ("mul", "div", "powi", "neg") or (e.op == "const") or (e.op in ("var", "app") and e.x in th.byname and th.byname[e.x].op in ("fn", "powf", "powi") and th.byname[e.x].x in ("exp", "sqrt", None)):
                sv = th.save()
                try:
                    x, p = LogExpand(th, at).go(e)
                except L.Fail:
                    th.restore(sv)
                    th.logdone.add(at.name)
                    continue
                if x.op in ("var", "app") and x.x == at.name:
                    continue
                fact(th, at, x, "exact (@H).trans %s" % p)
                done = True
    return done


def rule_hyper(th, a, b):
    """tanh = sinh/cosh"""
    done = False
    for at in names_in(th, a, b):
        if at.op == "fn" and at.x == "tanh" and at.name not in th.rep:
            e = th.norm(at.args[0])
            s = new_atom(th, "fn", "sinh", [e])
            c = new_atom(th, "fn", "cosh", [e])
            fact(th, at, div(s, c), "exact (@H).trans (PV.tanh_eq' %s %s)" % (hyp_for(th, s, e), hyp_for(th, c, e)))
            done = True
    give_signs(th)
    return done


def hyp_for(th, t, *es):
    """proof of t = f(es) for a named operation t whose arguments equal es"""
    x = th.byname[t.x]
    h = "h_%s" % x.name + "".join(" " + th.v(k) for k in x.lifted)
    if all(th.norm(p) is q for p, q in zip(x.args, es)):
        return "(%s)" % h
    return "((%s).trans (congrArg %s (by pv_ring)))" % (h, th.fn_head(x))


def rule_hyper_exp(th, a, b):
    done = False
    for at in names_in(th, a, b):
        if at.op == "fn" and at.x in ("sinh", "cosh") and at.name not in th.rep:
            e = th.norm(at.args[0])
            x = new_atom(th, "fn", "exp", [e])
            inv = mk("div", (ONE, x))
            body = mk("div", (mk("sub" if at.x == "sinh" else "add", (x, inv)), const(2)))
            fact(th, at, body, "exact (@H).trans (PV.%s_eq' %s)" % (at.x, hyp_for(th, x, e)))
            done = True
    give_signs(th)
    return done


def linear_terms(e, c=Fraction(1)):
    """[(monomial expr, rational)] of a sum"""
    if e.op == "add":
        return linear_terms(e.args[0], c) + linear_terms(e.args[1], c)
    if e.op == "sub":
        return linear_terms(e.args[0], c) + linear_terms(e.args[1], -c)
    if e.op == "neg":
        return linear_terms(e.args[0], -c)
    if e.op == "const":
        return [(ONE, c * e.x)]
    if e.op == "mul":
        x, y = e.args
        if x.op == "const":
            return linear_terms(y, c * x.x)
        if y.op == "const":
            return linear_terms(x, c * y.x)
        # distribute over sums
        if x.op in ("add", "sub", "neg"):
            out = []
            for m, q in linear_terms(x):
                out += linear_terms(mul(m, y), c * q)
            return out
        if y.op in ("add", "sub", "neg"):
            out = []
            for m, q in linear_terms(y):
                out += linear_terms(mul(x, m), c * q)
            return out
        fx, fy = const_factor(x), const_factor(y)
        if fx[0] != 1 or fy[0] != 1:
            return [(mul(fx[1], fy[1]), c * fx[0] * fy[0])]
    if e.op == "div":
        x, y = e.args
        if x.op in ("add", "sub", "neg"):
            out = []
            for m, q in linear_terms(x):
                out += linear_terms(div(m, y), c * q)
            return out
        fx, fy = const_factor(x), const_factor(y)
        if fx[0] != 1 or fy[0] != 1:
            return [(div(fx[1], fy[1]), c * fx[0] / fy[0])]
    return [(e, c)]


def const_factor(e):
    """(rational, rest) with e = rational * rest"""
    if e.op == "const":
        return e.x, ONE
    if e.op == "mul":
        a, b = const_factor(e.args[0]), const_factor(e.args[1])
        return a[0] * b[0], mul(a[1], b[1])
    if e.op == "div":
        a, b = const_factor(e.args[0]), const_factor(e.args[1])
        if b[0] == 0:
            return Fraction(1), e
        return a[0] / b[0], div(a[1], b[1])
    if e.op == "neg":
        a = const_factor(e.args[0])
        return -a[0], a[1]
    return Fraction(1), e


def rule_exp(th, a, b):
    """exp(c1*m1 + c2*m2 + …) = Π exp(g_i*m_i)^n_i with common bases; exp(n*ln x) = x^n"""
    ats = [x for x in names_in(th, a, b) if x.op == "fn" and x.x == "exp" and x.name not in th.rep and x.name not in th.expbase]
    if not ats:
        return False
    mons = []      # representatives of monomials: [expr, [coefs]]
    parts = []
    for at in ats:
        ts = []
        for m, c in linear_terms(th.norm(at.args[0])):
            if c == 0:
                continue
            hit = None
            for i, (r, cs) in enumerate(mons):
                q = ratio(th, m, r)
                if q is not None:
                    hit = i
                    c = c * q
                    break
            if hit is None:
                mons.append([m, []])
                hit = len(mons) - 1
            ts.append((hit, c))
        tot = {}
        for i, c in ts:
            tot[i] = tot.get(i, Fraction(0)) + c
        for i, c in tot.items():
            if c != 0:
                mons[i][1].append(c)
        parts.append(ts)
    done = False
    bases = []
    for m, cs in mons:
        g = cs[0] if cs else Fraction(1)
        for c in cs[1:]:
            g = fgcd(g, c)
        bases.append((m, abs(g)))
    for at, ts in zip(ats, parts):
        coef = {}
        for i, c in ts:
            coef[i] = coef.get(i, Fraction(0)) + c
        terms = [(i, c / bases[i][1]) for i, c in coef.items() if c != 0]
        if len(terms) == 1 and terms[0][1] == 1:
            th.expbase.add(at.name)
            continue
        body = ONE
        rw = []
        sumtext = []
        prod = []
        for i, n in terms:
            m, g = bases[i]
            arg = mul(const(g), m) if g != 1 else m
            if arg is ONE or arg.op == "const":
                pass
            x = new_atom(th, "fn", "exp", [arg])
            th.expbase.add(x.x)
            prod.append((x, int(n), arg))
            body = mul(body, powi(x, iconst(int(n)))) if body is not ONE else powi(x, iconst(int(n)))
        h = th.norm(at.args[0])
        if not prod:
            fact(th, at, ONE, "rw [@H, show %s = 0 by pv_ring, Real.exp_zero]" % th.t(h))
            done = True
            continue
        hs = []
        for x, n, arg in prod:
            hs.append("h_%s" % th.byname[x.x].name)
        tac = "rw [@H]; rw [%s]; simp only [← Real.exp_nat_mul, ← Real.exp_neg, ← Real.exp_add]; refine congrArg Real.exp ?_; pv_ring" % ", ".join(dict.fromkeys(hs))
        fact(th, at, body, tac)
        done = True
    give_signs(th)
    return done


def rule_explog(th, a, b):
    """exp(ln x) = x"""
    done = False
    if not th.rel:
        return False
    for at in names_in(th, a, b):
        if at.op == "fn" and at.x == "exp" and at.name not in th.rep:
            e = th.norm(at.args[0])
            if e.op in ("var", "app") and e.x in th.byname and th.byname[e.x].op == "fn" and th.byname[e.x].x == "ln":
                l = th.byname[e.x]
                y = th.norm(subst(l.args[0], dict(zip(l.lifted, e.args))) if l.lifted else l.args[0])
                if sign(th, y) == "+":
                    hl = "h_%s" % l.name if not l.lifted else "(h_%s %s)" % (l.name, " ".join(th.v(k) for k in e.args))
                    fact(th, at, y, "rw [@H, %s]; exact Real.exp_log (by positivity)" % hl)
                    done = True
    return done


def fgcd(a, b):
    a, b = abs(a), abs(b)
    import math
    d = a.denominator * b.denominator // math.gcd(a.denominator, b.denominator)
    return Fraction(math.gcd(int(a * d), int(b * d)), d)


def ratio(th, m, r):
    """rational q with m = q*r as rational expressions, else None"""
    if m is r:
        return Fraction(1)
    import random
    from .num import Undefined, close
    from mpmath import mpf
    qs = []
    for i in range(3):
        rnd = random.Random(i * 91 + 3)
        ev = L.NEv({}, lambda s: mpf(rnd.randint(300, 2300)) / 1000 + mpf(rnd.random()) / 1000 if s == "R" else rnd.randint(2, 9))
        try:
            x, y = ev.ev(m), ev.ev(r)
            if y == 0:
                return None
            qs.append(x / y)
        except (Undefined, ZeroDivisionError, OverflowError):
            return None
    if not (close(qs[0], qs[1]) and close(qs[0], qs[2])):
        return None
    f = Fraction(str(qs[0])).limit_denominator(10 ** 6)
    if close(mpf(f.numerator) / f.denominator, qs[0]):
        return f
    return None


def rule_powf(th, a, b):
    """x^(k+1/2) = x^k * sqrt x"""
    done = False
    for at in names_in(th, a, b):
        if at.op == "powf" and at.name not in th.rep:
            base, ex = th.norm(at.args[0]), th.norm(at.args[1])
            if ex.op == "const" and ex.x.denominator == 2 and sign(th, base) == "+":
                k = (ex.x - Fraction(1, 2))
                s = new_atom(th, "fn", "sqrt", [base])
                body = mul(powi(base, iconst(int(k))), s)
                z = int(k)
                hs = hyp_for(th, s, base)
                body = mk("mul", (powi(base, iconst(z)), s)) if z else s
                if z > 0 and z != 1:
                    tac = "exact (@H).trans (PV.rpow_half (by positivity) %d _ (by norm_num) %s)" % (z, hs)
                elif z < -1:
                    tac = "exact (@H).trans (PV.rpow_half_neg (by positivity) %d _ (by norm_num) %s)" % (-z, hs)
                else:
                    tac = "rw [@H, PV.rpow_half%s (by positivity) %d _ (by norm_num) %s]; first | rfl | simp" % ("" if z >= 0 else "_neg", abs(z), hs)
                fact(th, at, body, tac)
                done = True
    give_signs(th)
    return done


def rule_sqrt(th, a, b):
    """sqrt of a product of positive factors"""
    done = False
    for at in names_in(th, a, b):
        if at.op == "fn" and at.x == "sqrt" and at.name not in th.rep and at.name not in th.sqrtdone:
            th.sqrtdone.add(at.name)
            e = th.norm(at.args[0])
            if sign(th, e) != "+":
                continue
            fs = {}
            order = []
            for f, k in flatten_mul(e):
                if f.op == "const":
                    # integers: keep numerator and denominator as separate factors
                    for q, kk in ((f.x.numerator, k), (f.x.denominator, -k)):
                        if q != 1:
                            c = const(q)
                            if c.id not in fs:
                                fs[c.id] = [c, 0]
                                order.append(c.id)
                            fs[c.id][1] += kk
                    continue
                if f.id not in fs:
                    fs[f.id] = [f, 0]
                    order.append(f.id)
                fs[f.id][1] += k
            if any(sign(th, fs[i][0]) != "+" for i in order):
                continue
            if len(order) == 1 and fs[order[0]][1] == 1:
                continue
            body = ONE
            sq = []
            for i in order:
                f, k = fs[i]
                if k == 0:
                    continue
                if k % 2 == 0:
                    body = mul(body, powi(f, iconst(k // 2)))
                else:
                    s = new_atom(th, "fn", "sqrt", [f])
                    th.sqrtdone.add(s.x)
                    sq.append((s, f))
                    body = mul(body, mul(powi(f, iconst((k - 1) // 2)), s))
            give_signs(th)
            # sqrt e = body because body ≥ 0 and body^2 = e
            facts = " ".join("have q%d : %s ^ 2 = %s := (by rw [h_%s]; exact Real.sq_sqrt (by positivity));" % (j, th.t(s), th.t(f), th.byname[s.x].name) for j, (s, f) in enumerate(sq))
            tac = "%s exact (@H).trans (PV.sqrt_eq' (by positivity) (by simp only [mul_pow, inv_pow, div_pow%s]; pv_ring))" % (
                facts, "".join(", q%d" % j for j in range(len(sq))))
            fact(th, at, body, tac)
            done = True
    give_signs(th)
    return done


def rule_sums(th, a, b):
    """pull factors that do not depend on the index out of a sum, inner sums first"""
    done = False
    for at in sorted(names_in(th, a, b), key=lambda at: -len(at.lifted)):
        if at.op == "sum" and at.name not in th.rep and at.name not in th.sumdone:
            th.sumdone.add(at.name)
            n, (tag, ks, body) = at.args
            body = th.norm(body)
            k = ks[0]
            if body.op in ("add", "sub") and False:
                pass
            ins, outs = ONE, ONE
            for f, e in flatten_mul(body):
                g = powi(f, iconst(e))
                if k in free_vars(f):
                    ins = mul(ins, g)
                else:
                    outs = mul(outs, g)
            if outs is ONE:
                continue
            lifted = at.lifted
            s = new_sum(th, n, k, ins)
            x = th.byname[s.x]
            hx = "h_%s" % x.name + "".join(" " + th.v(v) for v in x.lifted)
            tac = "rw [@H, %s, ← PV.sum_mul_left] <;> (refine PV.sum_congr rfl (fun %s _ _ => ?_); pv_ring)" % (hx, th.v(k))
            fact(th, at, mul(outs, s), tac)
            done = True
    return done


def rule_proportional_sums(th, a, b):
    """two sums whose terms are, one by one, the same rational multiple of each other"""
    if not th.rel:
        return False
    done = False
    sums = [at for at in names_in(th, a, b) if at.op == "sum" and at.name not in th.rep and not at.lifted]
    for j, q in enumerate(sums):
        for p in sums[:j]:
            if p.name in th.rep or th.norm(p.args[0]) is not th.norm(q.args[0]):
                continue
            k, kq = p.args[1][1][0], q.args[1][1][0]
            x, y = th.norm(p.args[1][2]), subst(th.norm(q.args[1][2]), {kq: k})
            c = body_ratio(th, y, x)
            if c is None:
                continue
            v = th.v(k)
            tac = "rw [@H, h_%s, ← PV.sum_mul_left]; refine PV.sum_congr rfl (fun %s _ _ => ?_); pv_ring" % (p.name, v)
            fact(th, q, mul(c, app(th, p)), tac)
            done = True
            break
    return done


def body_ratio(th, y, x):
    """rational constant c with y = c x as rational expressions in the names; None when there is none"""
    for c in (Fraction(-1), Fraction(1), Fraction(2), Fraction(-2), Fraction(1, 2), Fraction(-1, 2)):
        if th.indep(y, mul(const(c), x)):
            return const(c)
    return None


def rule_sums2(th, a, b):
    """bodies of sums changed: compare them again"""
    if th.rel:
        for at in th.order:
            if at.op == "sum" and at.name not in th.rep:
                th.sumdone.discard(at.name)
        return rule_sums(th, a, b)
    return False


def monomials(e, k, cap=400):
    """[(coefficient free of k, {factor: exponent})] of a polynomial in k-dependent factors; None when too large"""
    if k not in free_vars(e):
        return [(e, {})]
    o, A = e.op, e.args
    if o in ("add", "sub", "neg"):
        r = monomials(A[0], k, cap)
        if r is None:
            return None
        if o == "neg":
            return [(neg(c), m) for c, m in r]
        q = monomials(A[1], k, cap)
        if q is None:
            return None
        r = r + (q if o == "add" else [(neg(c), m) for c, m in q])
        return r if len(r) <= cap else None

    def times(p, q):
        if len(p) * len(q) > cap:
            return None
        out = []
        for c, m in p:
            for d, n in q:
                mm = dict(m)
                for f, x in n.items():
                    mm[f] = mm.get(f, 0) + x
                    if mm[f] == 0:
                        del mm[f]
                out.append((mul(c, d), mm))
        return out
    if o == "mul":
        p, q = monomials(A[0], k, cap), monomials(A[1], k, cap)
        return p and q and times(p, q)
    if o == "div":
        p = monomials(A[0], k, cap)
        if p is None:
            return None
        if k not in free_vars(A[1]):
            return [(div(c, A[1]), m) for c, m in p]
        q = monomials(A[1], k, cap)
        if q is not None and len(q) == 1:
            return times(p, [(div(ONE, q[0][0]), {f: -x for f, x in q[0][1].items()})])
        return times(p, [(ONE, {A[1]: -1})])
    if o == "powi" and A[1].op == "iconst":
        n = A[1].x
        p = monomials(A[0], k, cap)
        if p is not None and len(p) == 1:
            return [(powi(p[0][0], A[1]), {f: x * n for f, x in p[0][1].items()})]
        if p is not None and 0 < n <= 4:
            r = p
            for _ in range(n - 1):
                r = r and times(r, p)
            return r
        return [(ONE, {A[0]: n})]
    return [(ONE, {e: 1})]


def rule_linear_sums(th, a, b):
    """sums written as combinations of sums of monomials in their index-dependent factors"""
    if not th.rel:
        return False
    done = False
    required_signs(th)
    basis, pivots = {}, []
    for at in sorted(names_in(th, a, b), key=lambda x: x.name not in th.known_pos):
        if at.op != "sum" or at.name in th.rep or at.lifted or at.name in th.lindone:
            continue
        th.lindone.add(at.name)
        n, (tag, ks, body) = at.args
        k = ks[0]
        ms = monomials(th.norm(body), k)
        if ms is None:
            continue
        by = {}
        for c, m in ms:
            key = tuple(sorted(((f.id, x) for f, x in m.items())))
            if key in by:
                by[key] = (add(by[key][0], c), m)
            else:
                by[key] = (c, m)
        if len(by) > 24 or (len(by) == 1 and is_const(list(by.values())[0][0], 1)):
            continue
        tgt, names, parts = None, [], []
        for key, (c, m) in reversed(sorted(by.items())):
            bd = ONE
            for f, x in sorted(m.items(), key=lambda p: p[0].id):
                bd = mul(bd, powi(f, iconst(x)))
            bk = (th.norm(n).id, key)
            if bk in basis:
                s, x = basis[bk]
            else:
                s = new_sum(th, n, k, bd, False)
                x = th.byname[s.x]
                th.lindone.add(x.name)
                basis[bk] = (s, x)
            names.append("h_%s" % x.name)
            parts.append((c, s, x))
            t = mk("mul", (c, s))
            tgt = t if tgt is None else mk("add", (t, tgt))
        pf = "PV.sum_last"
        for _ in range(len(names) - 1):
            pf = "(PV.sum_lin %s)" % pf
        tac = "rw [@H, %s]; refine Eq.trans ?_ %s; refine PV.sum_congr rfl (fun %s _ _ => ?_); beta_reduce; pv_ring" % (", ".join(sorted(set(names))), pf, th.v(k))
        piv = [p for p in parts if sign(th, p[0]) == "+" and p[2] not in [q[0] for q in pivots]] if at.name in th.known_pos else []
        if piv:
            # a sum that is not zero stays: one of the sums of monomials is expressed by it
            c, s, x = piv[0]
            h = th.fresh("hl")
            th.out("have %s : %s = %s := by %s" % (h, at.name, th.t(tgt), tac.replace("@H", "h_%s" % at.name)))
            rest = app(th, at)
            for p in parts:
                if p is not piv[0]:
                    rest = sub(rest, mul(p[0], p[1]))
            pivots.append((x, div(rest, c), "rw [eq_div_iff (ne_of_gt (show (0:ℝ) < %s by positivity))]; linear_combination (-1:ℝ) * %s" % (th.t(c), h)))
        else:
            fact(th, at, tgt, tac)
        done = True
    for x, e, tac in pivots:
        fact(th, x, e, tac)
    return done


def new_sum(th, n, k, body, merge=True):
    node = bsum(concrete(th, n), k, concrete(th, body))
    lifted = sorted({v for v in set(th.lifted_of(n)) | set(th.lifted_of(body)) if v is not k}, key=lambda v: v.x)
    th.n += 1
    a = L.At("t%d" % th.n, lifted, "sum", None, (n, ("lam", [k], body)), "R", node)
    th.byname[a.name] = a
    th.order.append(a)
    ty = " → ".join([L.TY[v.sort] for v in lifted] + ["ℝ"])
    if lifted:
        ks = " ".join(th.v(v) for v in lifted)
        kb = " ".join("(%s : %s)" % (th.v(v), L.TY[v.sort]) for v in lifted)
        th.out("obtain ⟨%s, h_%s⟩ : ∃ z : %s, ∀ %s, z %s = %s := ⟨fun %s => _, fun %s => rfl⟩" % (a.name, a.name, ty, kb, ks, th.defn(a), kb, ks))
    else:
        th.out("obtain ⟨%s, h_%s⟩ : ∃ z : %s, z = %s := ⟨_, rfl⟩" % (a.name, a.name, ty, th.defn(a)))
    th.sumdone.add(a.name)
    for q in th.order if merge else ():
        if q is not a and q.name not in th.rep and q.op == "sum" and q.lifted == a.lifted and th.same_value(a.node, q.node):
            try:
                th.merge(a, q)
                return app(th, q)
            except L.Fail:
                pass
    return app(th, a)


def rule_ite(th, a, b, depth):
    """split on a condition"""
    for at in names_in(th, a, b):
        if at.op == "ite" and at.name not in th.rep and not at.lifted:
            c = th.norm(at.args[0])
            h = th.fresh("hc")
            th.out("rcases Classical.em (%s) with %s | %s" % (th.t(c), h, h))
            lines0 = th.lines
            saved = th.save()
            for val in (True, False):
                th.lines = []
                th.casefix = getattr(th, "casefix", []) + [(c, val)]
                # every conditional with this condition
                for x in list(th.order):
                    if x.op == "ite" and x.name not in th.rep and not x.lifted:
                        cx = th.norm(x.args[0])
                        if cx is c:
                            tgt = th.norm(x.args[1] if val else x.args[2])
                            fact(th, x, tgt, "rw [@H]; exact PV.%s_%s %s _ _" % ("ite" if x.sort == "R" else "iteZ", "pos" if val else "neg", h))
                        elif decided(c, val, cx) is not None:
                            d = decided(c, val, cx)
                            tgt = th.norm(x.args[1] if d else x.args[2])
                            pf = "(by %slinarith)" % ("" if d else "intro hx; ")
                            fact(th, x, tgt, "rw [@H]; exact PV.%s_%s %s _ _" % ("ite" if x.sort == "R" else "iteZ", "pos" if d else "neg", pf))
                th.case_env = (c, val)
                th.classify()
                th.finish(a, b, depth + 1)
                sub_ = th.lines
                lines0.append("  · " + (sub_[0].strip() if sub_ else "skip"))
                for s in sub_[1:]:
                    lines0.append("  " + s)
                th.casefix = th.casefix[:-1]
                th.restore(saved)
            th.lines = lines0
            return True
    return False


def decided(c, val, d):
    """truth of comparison d given comparison c = val, for comparisons of one term with constants"""
    if c.op not in ("lt", "le") or d.op not in ("lt", "le"):
        return None

    def norm(x, v):
        a, b = x.args
        strict = x.op == "lt"
        if b.op in ("const", "iconst"):
            t, k, up = a, b.x, True     # t < k
        elif a.op in ("const", "iconst"):
            t, k, up = b, a.x, False    # k < t
        else:
            return None
        if not v:
            up, strict = not up, not strict
        return t, k, up, strict
    p, q, r = norm(c, val), norm(d, True), norm(d, False)
    if p is None or q is None or p[0] is not q[0]:
        return None

    def implies(p, q):
        if p[2] != q[2]:
            return False
        if p[2]:
            return p[1] < q[1] or (p[1] == q[1] and (p[3] or not q[3]))
        return p[1] > q[1] or (p[1] == q[1] and (p[3] or not q[3]))
    if implies(p, q):
        return True
    if implies(p, r):
        return False
    return None


STAGES = [rule_proportional_sums, rule_logs, rule_hyper, rule_sums, rule_exp, rule_explog, rule_sums2, rule_powf, rule_sqrt, rule_hyper_exp, rule_exp, rule_logs, rule_linear_sums]


def apply(th, a, b, depth):
    if depth > 8:
        return False
    give_signs(th)
    if th.rel:
        required_signs(th)
    for st in STAGES:
        if st(th, a, b):
            th.classify()
            if closes(th, a, b):
                return True
    # conditionals
    if rule_ite(th, a, b, depth):
        return True
    return False


def closes(th, a, b):
    na, nb = th.norm(a), th.norm(b)
    if na is nb or th.indep(na, nb):
        th.out("show %s = %s" % (th.t(na), th.t(nb)))
        th.out("rfl" if na is nb else "pv_ring")
        return True
    if th.rel:
        return by_slopes(th, na, nb) or relations(th, na, nb)
    return False


def by_slopes(th, na, nb):
    """the equation is linear in the unknown slopes of the roots: each coefficient vanishes on its own"""
    from .deriv import linear
    rest = sub(na, nb)
    parts = []
    for v in sorted((v for v in free_vars(rest) if v.x.startswith("root") and v.x.endswith("_slope")), key=lambda v: v.x):
        ab = linear(rest, v)
        if ab is None:
            return False
        parts.append((v, ab[0]))
        rest = ab[1]
    if not parts:
        return False
    mark = len(th.lines)
    th.out("show %s = %s" % (th.t(na), th.t(nb)))
    comb = []
    for v, c in parts + [(None, rest)]:
        if is_const(c, 0):
            continue
        m2 = len(th.lines)
        h = th.fresh("hc")
        ok = False
        # as an equation between two terms: numbers are compared relative to their size
        l, r = c.args if c.op == "sub" else (c.args[0], neg(c.args[1])) if c.op == "add" else (c, ZERO)
        if th.indep(l, r):
            th.out("pv_ring")
            ok = True
        else:
            ok = relations(th, l, r)
        if not ok:
            del th.lines[mark:]
            return False
        ls = th.lines[m2:]
        del th.lines[m2:]
        th.out("have %s : %s = %s := by" % (h, th.t(l), th.t(r)))
        for l in ls:
            th.lines.append("  " + l)
        comb.append("%s * %s" % (th.t(v), h) if v is not None else h)
    if not comb:
        th.out("ring1")
    else:
        th.out("linear_combination %s" % " + ".join(comb))
    return True


def relations(th, na, nb):
    """close the goal with equations between names: requirements that are linear in a name, squares of square roots,
    cosh^2 = 1 + sinh^2; each elimination alone, then all of them"""
    es = [(th.norm(e[0]),) + tuple(e[1:]) for e in th.elim_named]
    fv = set(free_vars(na)) | set(free_vars(nb))
    tries = [[]] + ([[e] for e in es if e[0] in fv] if len(es) > 1 else [])
    # several square roots: their signs decide which root of an equation each one is
    roots = len([x for x in th.order if x.name not in th.rep and x.op == "fn" and x.x == "sqrt"]) > 1
    for signs in (True, False) if roots else (False,):
        mark, kp = len(th.lines), set(th.known_pos)
        if signs:
            give_signs(th)
        for es in tries + [th.elim_named]:
            if relations_by(th, na, nb, es):
                return True
        th.known_pos = kp
        del th.lines[mark:]
    return False


def relations_by(th, na, nb, elims):
    from .deriv import linear
    mark = len(th.lines)
    th.out("show %s = %s" % (th.t(na), th.t(nb)))
    ea, eb = na, nb
    done = []
    forced = []

    def use(v, val, proof_ne, eqn, unit):
        nonlocal ea, eb
        h, e = th.fresh("hx"), th.fresh("he")
        th.out("have %s := %s" % (e, eqn))
        for x in done:
            th.out("try rw [%s] at %s" % (x, e))
        if unit:
            th.out("have %s : %s = %s := by linear_combination (-1:ℝ) * %s" % (h, th.t(v), th.t(val), e))
        else:
            th.out("have %s : %s = %s := by rw [eq_div_iff %s]; linear_combination (-1:ℝ) * %s" % (h, th.t(v), th.t(val), proof_ne, e))
        if sign(th, v) == "+" and val.op == "div" and sign(th, val.args[0]) != "+":
            th.out("have %s : %s ≠ 0 := by intro h0; rw [h0, zero_div] at %s; have : 0 < %s := (by positivity); linarith" % (th.fresh("hz"), th.t(val.args[0]), h, th.t(v)))
        th.out("try rw [%s]" % h)
        done.append(h)
        ea, eb = subst(ea, {v: val}), subst(eb, {v: val})
        subs.append((v, val))
    subs = []
    for v, val, ne, i, unit in elims:
        v, val = th.norm(v), th.norm(val)
        use(v, val, ne, "req%d" % i, unit)
        if th.indep(ea, eb, forced=forced or [("§", ONE)]):
            th.out("all_goals pv_rel")
            return True
    seen = set()
    for _ in range(6):
        new = [x for x in names_in0(th, ea, eb) if x.name not in seen and not x.lifted and x.op == "fn" and x.x in ("sqrt", "cosh")]
        if not new:
            break
        for x in new:
            seen.add(x.name)
            q = var(x.name)
            if x.x == "cosh":
                s = [y for y in th.order if y.op == "fn" and y.x == "sinh" and y.name not in th.rep and not y.lifted and th.norm(y.args[0]) is th.norm(x.args[0])]
                if s:
                    e = th.fresh("he")
                    th.out("have %s : %s ^ 2 = %s ^ 2 + 1 := by rw [h_%s, h_%s]; exact Real.cosh_sq _" % (e, x.name, s[0].name, x.name, s[0].name))
                    forced.append((x.name, fn("sqrt", add(ONE, powi(var(s[0].name), iconst(2))))))
                continue
            arg = th.norm(x.args[0])
            eqn = "(show %s ^ 2 = %s from by rw [h_%s]; exact Real.sq_sqrt (by first | positivity | linarith))" % (x.name, th.t(arg), x.name)
            for v, val in subs:
                arg = subst(arg, {v: val})
            sq = square_root(th, arg)
            if sq is not None:
                h = th.fresh("hx")
                th.out("have %s : %s = %s := by rw [h_%s]; %srw [show %s = %s ^ 2 by pv_ring]; exact Real.sqrt_sq (by positivity)" % (
                    h, x.name, th.t(sq), x.name, "".join("(try rw [%s]); " % z for z in done), th.t(arg), th.t(sq)))
                th.out("try rw [%s]" % h)
                done.append(h)
                ea, eb = subst(ea, {q: sq}), subst(eb, {q: sq})
                subs.append((q, sq))
                continue
            vs = [v for v in sorted(free_vars(arg), key=lambda v: (v.x in th.byname, v.x)) if v.sort == "R" and v is not q and v.x not in [f[0] for f in forced]]
            for v in vs:
                ab = linear(arg, v)
                if ab is None or is_const(ab[0], 0) or th.byname.get(v.x) is not None and th.byname[v.x].op == "fn" and th.byname[v.x].x == "sqrt":
                    continue
                n = powi(q, iconst(2))
                n = n if is_const(ab[1], 0) else sub(n, ab[1])
                unit = is_const(ab[0], 1)
                use(v, n if unit else div(n, ab[0]), "(by first | positivity | (rw [neg_ne_zero]; positivity))", eqn, unit)
                break
            else:
                e = th.fresh("he")
                th.out("have %s := %s" % (e, eqn))
                forced.append((x.name, fn("sqrt", arg)))
    if (done or forced) and th.indep(ea, eb, forced=forced or [("§", ONE)]):
        th.out("all_goals pv_rel")
        return True
    del th.lines[mark:]
    return False


def square_root(th, e):
    """e = s^2 for a monomial s of positive names"""
    s = ONE
    fs = {}
    c = Fraction(1)
    for f, k in flatten_mul(e):
        if f.op == "const":
            if f.x <= 0:
                return None
            c *= f.x ** k
            continue
        if sign(th, f) != "+":
            return None
        fs.setdefault(f.id, [f, 0])[1] += k
    if not fs:
        return None
    import math
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a != c.numerator or b * b != c.denominator or any(k % 2 for _, k in fs.values()):
        return None
    s = const(Fraction(a, b))
    for f, k in fs.values():
        if k:
            s = mul(s, powi(f, iconst(k // 2)))
    return s


def names_in0(th, *es):
    seen = {}
    for e in es:
        for n in nodes(e):
            if n.op in ("var", "app") and n.x in th.byname:
                seen[n.x] = 1
    return [a for a in th.order if a.name in seen]
