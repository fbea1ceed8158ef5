"""Symbolic execution of extracted Rust functions into expression graphs (strongest postcondition of
straight-line code; loops become sums, products or loop nodes; branches become conditionals).

What the reading drops: f64 rounding, overflow to infinity and NaN (f64 is read as a real number).
What it keeps and turns into separate obligations: ranges of machine integers, narrowing casts,
index bounds, assert!/panic! reachability.
"""
import math
from fractions import Fraction
from . import ir
from .ir import *


class Unsupported(Exception):
    pass


class V:
    __slots__ = ("e", "ty")

    def __init__(self, e, ty):
        self.e, self.ty = e, ty

    def __repr__(self):
        return "V(%r:%s)" % (self.e, self.ty)


class ListV:
    def __init__(self, items):
        self.items = list(items)


class SeqV:
    """n elements, element k is f(k); n is a Z expression; f takes a Z expression"""

    def __init__(self, n, f):
        self.n, self.f = n, f


class FlatV:
    """flattened sequence of sequences"""

    def __init__(self, seq):
        self.seq = seq


class TupV:
    def __init__(self, items):
        self.items = list(items)


class StructV:
    def __init__(self, path, fields):
        self.path, self.fields = path, fields


class CloV:
    def __init__(self, ps, body, scope, module, self_fn):
        self.ps, self.body, self.scope, self.module, self.frame_fn = ps, body, scope, module, self_fn


class FnV:
    def __init__(self, fn):
        self.fn = fn


class NatV:
    """python implemented callable"""

    def __init__(self, f, name=""):
        self.f, self.name = f, name


class ExtV:
    def __init__(self, path):
        self.path = path


class RangeV:
    def __init__(self, lo, hi, incl):
        self.lo, self.hi, self.incl = lo, hi, incl


class MutRef:
    def __init__(self, slot, path=()):
        self.slot, self.path = slot, tuple(path)


class SymIterMut:
    def __init__(self, lv, n):
        self.lv, self.n = lv, n


class ZipSym:
    def __init__(self, a, b):
        self.a, self.b = a, b


class FromFn:
    """std::array::from_fn before its length is known; call(i, state) runs the closure"""

    def __init__(self, call, st):
        self.call, self.st = call, st


class OpaqueV:
    """a value the reading does not look into (random generators and the like)"""

    def __init__(self, name):
        self.name = name


class UnitV:
    pass


UNIT = UnitV()

INT_RANGE = {
    "u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "u128": (0, 2**128 - 1), "usize": (0, 2**64 - 1),
    "i8": (-128, 127), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "i128": (-2**127, 2**127 - 1),
    "isize": (-2**63, 2**63 - 1),
}

STD_CONST = {
    "PI": lambda: fn("pi"), "TAU": lambda: mul(const(2), fn("pi")), "E": lambda: fn("exp", const(1)),
    "FRAC_PI_2": lambda: div(fn("pi"), const(2)), "FRAC_PI_3": lambda: div(fn("pi"), const(3)), "FRAC_PI_4": lambda: div(fn("pi"), const(4)),
    "FRAC_PI_6": lambda: div(fn("pi"), const(6)), "FRAC_PI_8": lambda: div(fn("pi"), const(8)), "FRAC_1_PI": lambda: div(const(1), fn("pi")),
    "FRAC_2_PI": lambda: div(const(2), fn("pi")), "FRAC_2_SQRT_PI": lambda: div(const(2), fn("sqrt", fn("pi"))),
    "SQRT_2": lambda: fn("sqrt", const(2)), "FRAC_1_SQRT_2": lambda: div(const(1), fn("sqrt", const(2))),
    "LN_2": lambda: fn("ln", const(2)), "LN_10": lambda: fn("ln", const(10)),
}

F64_CONST = {"MAX": Fraction(1.7976931348623157e308), "MIN": -Fraction(1.7976931348623157e308), "EPSILON": Fraction(2.220446049250313e-16),
             "MIN_POSITIVE": Fraction(2.2250738585072014e-308)}

OPAQUE_CONSTS = {"physics::BOLTZMANN_CONSTANT": "BOLTZMANN_CONSTANT", "physics::PLANCK_CONSTANT": "PLANCK_CONSTANT"}


SMALL_INT = {(0, 255), (-128, 127)}


class Obl:
    """a safety obligation met on the way: under pc, cond must hold"""

    def __init__(self, kind, pc, cond, fn, line, desc, binders=()):
        self.kind, self.pc, self.cond, self.fn, self.line, self.desc, self.binders = kind, pc, cond, fn, line, desc, tuple(binders)


def conjuncts(c):
    if c is TRUE:
        return []
    if c.op == "and":
        return [x for a in c.args for x in conjuncts(a)]
    return [c]


class State:
    __slots__ = ("store", "alive", "fork")

    def __init__(self, store, alive):
        self.store, self.alive = store, alive

    def copy(self):
        return State(dict(self.store), self.alive)


class Frame:
    def __init__(self, fn, module):
        self.fn, self.module = fn, module
        self.returns = []
        self.loops = []
        self.selfty = None


class Exec:
    def __init__(self, crate, boundary=None, max_depth=40, opaque_consts=True):
        self.crate = crate
        self.boundary = boundary or (lambda fn: None)
        self.obls = []
        self.inlined = {}
        self.slot_n = 0
        self.depth = 0
        self.max_depth = max_depth
        self.opaque_consts = opaque_consts
        self.sym_consts = {}    # integer constants read as arbitrary numbers
        self.const_cache = {}
        self.binders = []  # (var, n) currently in scope: 0 <= var < n
        self.ranges = None      # assumed ranges of the inputs (ranges.Ranges)
        self.cur_line = 0
        self.used_consts = set()

    # --- entry ---------------------------------------------------------
    def run(self, fn, args, pc=TRUE):
        """symbolically execute fn on argument values; returns its value"""
        st = State({}, pc)
        return self.call_fn(fn, args, st)

    def new_slot(self):
        self.slot_n += 1
        return self.slot_n

    def obl(self, kind, st, cond, fr, desc):
        if cond is TRUE or st.alive is FALSE:
            return
        self.obls.append(Obl(kind, st.alive, cond, fr.fn.path if fr and fr.fn else "?", self.cur_line, desc, self.binders))

    # --- calls -----------------------------------------------------------
    def call_fn(self, f, args, st):
        h = self.boundary(f)
        if h is not None:
            r = h(self, f, args, st)
            if r is not None:
                return r
        if self.depth > self.max_depth:
            raise Unsupported("recursion too deep in " + f.path)
        self.inlined[f.path] = self.inlined.get(f.path, 0) + 1
        self.depth += 1
        fr = Frame(f, f.module)
        scope = {}
        if len(f.params) != len(args):
            raise Unsupported("argument count of %s" % f.path)
        for p, a in zip(f.params, args):
            if p["k"] == "self":
                s = self.new_slot()
                st.store[s] = a
                scope["self"] = s
                if isinstance(a, StructV):
                    fr.selfty = a.path
            else:
                self.bind(p, self.coerce(a, p.get("ty")), scope, st, fr)
        if f.owner is not None:
            fr.selfty = f.module.name() + "::" + f.owner
        alive0 = st.alive
        v = self.block(f.body, scope, st, fr, hint=f.ret)
        v = self.coerce(v, f.ret)
        res = self.finish_returns(fr, v, st, alive0)
        st.alive = alive0
        self.depth -= 1
        return res

    def finish_returns(self, fr, v, st, alive0):
        rets = fr.returns
        if not rets:
            return v
        if st.alive is FALSE:
            # the last return is the default
            v = rets[-1][1]
            rets = rets[:-1]
        known = set(conjuncts(alive0))
        for c, rv in reversed(rets):
            # what holds at the call anyway is no part of the choice between the returned values
            parts = [x for x in conjuncts(c) if x not in known]
            c = TRUE
            for x in parts:
                c = and_(c, x)
            v = rv if c is TRUE else self.merge(c, rv, v)
        return v

    def call_value(self, f, args, st, fr):
        if isinstance(f, FnV):
            return self.call_fn(f.fn, args, st)
        if isinstance(f, NatV):
            return f.f(args, st)
        if isinstance(f, CloV):
            nfr = Frame(f.frame_fn, f.module)
            nfr.selfty = fr.selfty if fr else None
            scope = dict(f.scope)
            if len(f.ps) != len(args):
                raise Unsupported("closure argument count")
            for p, a in zip(f.ps, args):
                self.bind(p, a, scope, st, nfr)
            alive0 = st.alive
            v = self.expr(f.body, scope, st, nfr)
            v = self.finish_returns(nfr, v, st, alive0)
            st.alive = alive0
            return v
        raise Unsupported("call of %r" % (f,))

    def coerce(self, v, ty):
        """give untyped literals the declared type"""
        if ty is None:
            return v
        t = ty.replace("&", "").replace("mut ", "").strip()
        if isinstance(v, V):
            if v.ty == "int" and t in INT_RANGE:
                return V(v.e, t)
            return v
        if isinstance(v, FromFn):
            n = self.arr_len(t)
            if n is not None:
                return self.mk_from_fn(v, n)
        return v

    def arr_len(self, t):
        return None

    def mk_from_fn(self, v, n):
        st = v.st
        if n.op == "iconst" and n.x <= 8:
            return ListV([v.call(iconst(i), st) for i in range(n.x)])
        st0 = st.copy()
        k = fresh("k", "Z")
        self.binders.append((k, n))
        try:
            names, _, _ = self.changed_slots(st, lambda s: v.call(k, s))
            s = st.copy()
            for key, leaves in names.items():
                s.store[key] = self.rebuild_val(st.store[key], iter(leaves))
            r = v.call(k, s)
        finally:
            self.binders.pop()
        if s.alive is not st.alive:
            raise Unsupported("from_fn closure leaves early")
        inits, syms, steps, where = [], [], [], []
        for key, leaves in names.items():
            for a, b, c in zip(self.scalars(st.store[key]), leaves, self.scalars(s.store[key])):
                inits.append(a.e)
                syms.append(b.e)
                steps.append(c.e)
                where.append((key, b.ty if b.ty != "int" else c.ty))

        def state(m, store):
            """the captured variables after m calls"""
            if not syms:
                return
            by = {}
            for (key, ty), f in zip(where, self.loop_node(m, k, TRUE, inits, syms, steps)):
                by.setdefault(key, []).append(V(f, ty))
            for key, leaves in by.items():
                store[key] = self.rebuild_val(st0.store[key], iter(leaves))

        def at(i):
            s = st0.copy()
            state(i, s.store)
            x = self.rv(v.call(i, s), s)
            for key, val in s.store.items():
                if key not in st0.store:
                    st.store[key] = val
            return x
        state(n, st.store)
        return self.lazy(n, at)

    # --- patterns ---------------------------------------------------------
    def bind(self, p, v, scope, st, fr):
        k = p["k"]
        if k == "ident":
            if p.get("sub"):
                raise Unsupported("@ pattern")
            s = self.new_slot()
            st.store[s] = v
            scope[p["name"]] = s
        elif k == "wild":
            pass
        elif k == "refpat":
            self.bind(p["p"], v, scope, st, fr)
        elif k == "tuple":
            v = self.deref_tuple(v, st)
            if isinstance(v, (TupV, ListV)) and len(v.items) == len(p["ps"]):
                for q, w in zip(p["ps"], v.items):
                    self.bind(q, w, scope, st, fr)
            else:
                raise Unsupported("tuple pattern on %r" % (v,))
        elif k == "slice":
            if isinstance(v, ListV) and len(v.items) == len(p["ps"]):
                for q, w in zip(p["ps"], v.items):
                    self.bind(q, w, scope, st, fr)
            else:
                raise Unsupported("slice pattern")
        elif k == "structpat":
            v = self.rv(v, st)
            if not isinstance(v, StructV):
                raise Unsupported("struct pattern")
            for fname, q in p["fields"]:
                self.bind(q, v.fields[fname], scope, st, fr)
        else:
            raise Unsupported("pattern " + k)

    def deref_tuple(self, v, st):
        return self.rv(v, st)

    # --- lvalues ----------------------------------------------------------
    def rv(self, v, st):
        """read through mutable references"""
        n = 0
        while isinstance(v, MutRef):
            v = self.read(v, st)
            n += 1
            if n > 20:
                raise Unsupported("reference cycle")
        return v

    def read(self, r, st):
        v = st.store[r.slot]
        for p in r.path:
            v = self.rv(v, st)
            v = self.elem(v, p)
        return v

    def elem(self, v, p):
        if isinstance(p, str):
            if isinstance(v, StructV):
                return v.fields[p]
            if isinstance(v, (TupV, ListV)):
                return v.items[int(p)]
            raise Unsupported("field of %r" % v)
        if isinstance(v, ListV):
            if isinstance(p, E):
                if p.op == "iconst":
                    if p.x >= len(v.items):
                        raise Unsupported("index out of range")
                    return v.items[p.x]
                raise Unsupported("symbolic index of a literal list")
            return v.items[p]
        if isinstance(v, SeqV):
            return v.f(p if isinstance(p, E) else iconst(p))
        raise Unsupported("index of %r" % (v,))

    def write(self, r, val, st):
        old = st.store.get(r.slot)
        if isinstance(old, MutRef) and not r.path:
            # assignment through a reference variable
            return self.write(old, val, st)
        st.store[r.slot] = self._upd(old, r.path, val, st)

    def _upd(self, old, path, val, st):
        if not path:
            return val
        if isinstance(old, MutRef):
            self.write(MutRef(old.slot, old.path + tuple(path)), val, st)
            return old
        p = path[0]
        if isinstance(old, StructV):
            d = dict(old.fields)
            d[p] = self._upd(d[p], path[1:], val, st)
            return StructV(old.path, d)
        if isinstance(old, (ListV, TupV)):
            i = int(p) if isinstance(p, (str, int)) else (p.x if p.op == "iconst" else None)
            if i is None:
                raise Unsupported("symbolic index store")
            it = list(old.items)
            it[i] = self._upd(it[i], path[1:], val, st)
            return type(old)(it)
        if isinstance(old, SeqV):
            pe = p if isinstance(p, E) else iconst(p)
            nv = self._upd(old.f(pe), path[1:], val, st)
            return SeqV(old.n, lambda i, old=old, pe=pe, nv=nv: self.merge(eq(i, pe), nv, old.f(i)))
        raise Unsupported("store into %r" % (old,))

    def lvalue(self, e, scope, st, fr):
        k = e["k"]
        if k == "path" and len(e["path"]) == 1 and e["path"][0] in scope:
            s = scope[e["path"][0]]
            v = st.store[s]
            if isinstance(v, MutRef):
                return v
            return MutRef(s)
        if k == "un" and e["op"] == "*":
            return self.lvalue(e["e"], scope, st, fr)
        if k == "field":
            r = self.lvalue(e["e"], scope, st, fr)
            return MutRef(r.slot, r.path + (e["m"],))
        if k == "index":
            r = self.lvalue(e["e"], scope, st, fr)
            i = self.num(self.expr(e["i"], scope, st, fr), st)
            self.bounds(self.rv(self.read(r, st), st), i.e, st, fr)
            return MutRef(r.slot, r.path + (i.e,))
        if k == "ref":
            return self.lvalue(e["e"], scope, st, fr)
        raise Unsupported("assignment target " + k)

    # --- merging ------------------------------------------------------------
    def merge(self, c, a, b):
        if a is b or c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is None:
            return b
        if b is None:
            return a
        if isinstance(a, V) and isinstance(b, V):
            if a.e is b.e:
                return a if a.ty != "int" else b
            if a.e.sort != b.e.sort:
                raise Unsupported("branches of different sorts")
            return V(ite(c, a.e, b.e), a.ty if a.ty != "int" else b.ty)
        if isinstance(a, UnitV) or isinstance(b, UnitV):
            return UNIT
        if type(a) is type(b):
            if isinstance(a, (ListV, TupV)) and len(a.items) == len(b.items):
                return type(a)([self.merge(c, x, y) for x, y in zip(a.items, b.items)])
            if isinstance(a, StructV) and a.fields.keys() == b.fields.keys():
                return StructV(a.path, {k: self.merge(c, a.fields[k], b.fields[k]) for k in a.fields})
            if isinstance(a, SeqV):
                if a.n is b.n:
                    return SeqV(a.n, lambda i: self.merge(c, a.f(i), b.f(i)))
                return SeqV(ite(c, a.n, b.n), lambda i: self.merge(c, a.f(i), b.f(i)))
            if isinstance(a, (MutRef,)) and a.slot == b.slot and a.path == b.path:
                return a
            if isinstance(a, (FnV, OpaqueV, ExtV)):
                return a
            if isinstance(a, CloV):
                def both(args, st, a=a, b=b):
                    return self.merge(c, self.call_value(a, args, st, None), self.call_value(b, args, st, None))
                return NatV(both)
        raise Unsupported("cannot merge %r and %r" % (a, b))

    def merge_states(self, c, s1, s2):
        """s1 under c, s2 otherwise"""
        if s1.alive is FALSE:
            return s2
        if s2.alive is FALSE:
            return s1
        store = {}
        for k in s1.store:
            if k in s2.store:
                a, b = s1.store[k], s2.store[k]
                if a is b:
                    store[k] = a
                else:
                    try:
                        store[k] = self.merge(c, a, b)
                    except Unsupported:
                        store[k] = None
        return State(store, or_(s1.alive, s2.alive))

    # --- blocks and statements ----------------------------------------------
    def block(self, stmts, scope, st, fr, hint=None):
        scope = dict(scope)
        # items first
        val = UNIT
        for i, s in enumerate(stmts):
            if st.alive is FALSE:
                return None
            val = UNIT
            k = s["k"]
            self.cur_line = s.get("line", self.cur_line)
            if k == "let":
                ty = s["pat"].get("ty")
                if s["init"] is None:
                    if s["pat"]["k"] == "ident":
                        sl = self.new_slot()
                        st.store[sl] = None
                        scope[s["pat"]["name"]] = sl
                        continue
                    raise Unsupported("let without initialiser")
                if s.get("else"):
                    raise Unsupported("let else")
                v = self.expr(s["init"], scope, st, fr, hint=ty)
                if st.alive is FALSE:
                    return None
                v = self.coerce(v, ty)
                self.bind(s["pat"], v, scope, st, fr)
            elif k == "expr":
                v = self.expr(s["e"], scope, st, fr, hint=hint if (i == len(stmts) - 1 and not s["semi"]) else None)
                if not s["semi"]:
                    val = v
                if st.alive is FALSE:
                    return None
            elif k == "item":
                it = s["item"]
                if it["k"] == "fn":
                    from .crate import Fn
                    sl = self.new_slot()
                    st.store[sl] = FnV(Fn(fr.module, it))
                    scope[it["sig"]["name"]] = sl
                elif it["k"] == "const":
                    sl = self.new_slot()
                    st.store[sl] = self.coerce(self.expr(it["e"], scope, st, fr, hint=it["ty"]), it["ty"])
                    scope[it["name"]] = sl
                elif it["k"] == "use":
                    # local imports: resolved through a temporary module-level table
                    from .crate import Module
                    m2 = Module(fr.module.crate, fr.module.path, fr.module.parent)
                    m2.__dict__.update({k2: (dict(v2) if isinstance(v2, dict) else v2) for k2, v2 in fr.module.__dict__.items()})
                    fr.module.crate._use(m2, it["tree"], [], False)
                    fr.module = m2
                else:
                    raise Unsupported("nested item " + it["k"])
            else:
                raise Unsupported("statement " + k)
        return val

    # --- expressions -----------------------------------------------------------
    def expr(self, e, scope, st, fr, hint=None):
        if st.alive is FALSE:
            return None
        m = getattr(self, "x_" + e["k"], None)
        if m is None:
            raise Unsupported("expression " + e["k"] + " " + str(e.get("src", ""))[:80])
        if e.get("line"):
            self.cur_line = e["line"]
        return m(e, scope, st, fr, hint)

    def num(self, v, st):
        v = self.rv(v, st)
        if not isinstance(v, V):
            raise Unsupported("number expected, got %r" % (v,))
        return v

    def x_float(self, e, scope, st, fr, hint):
        return V(const(Fraction(e["v"])), "f64")

    def x_int(self, e, scope, st, fr, hint):
        suf = e["suffix"]
        if suf == "f64":
            return V(const(int(e["v"])), "f64")
        if suf:
            return V(iconst(int(e["v"])), suf)
        return V(iconst(int(e["v"])), "int")

    def x_bool(self, e, scope, st, fr, hint):
        return V(bconst(e["v"]), "bool")

    def x_str(self, e, scope, st, fr, hint):
        return OpaqueV("str:" + e["v"])

    def x_path(self, e, scope, st, fr, hint):
        p = e["path"]
        if len(p) == 1 and p[0] in scope:
            v = st.store[scope[p[0]]]
            return v
        return self.global_path(p, st, fr)

    def global_path(self, p, st, fr):
        if p[0] == "Self" and len(p) == 2 and fr.selfty:
            parts = fr.selfty.split("::")
            r = self.crate.resolve(self.crate.modules["::".join(parts[:-1])], [parts[-1], p[1]])
        else:
            r = self.crate.resolve(fr.module, p)
        if r is None:
            raise Unsupported("unresolved path " + "::".join(p))
        if r[0] == "fn":
            return FnV(r[1])
        if r[0] == "const":
            return self.const_value(r[1][0], r[1][1])
        if r[0] == "ext":
            q = r[1]
            if q[-1] in STD_CONST and (len(q) == 1 or q[-2] == "consts"):
                return V(STD_CONST[q[-1]](), "f64")
            if len(q) >= 2 and q[-2] == "f64" and q[-1] in F64_CONST:
                return V(const(F64_CONST[q[-1]]), "f64")
            if len(q) >= 2 and q[-2] in INT_RANGE and q[-1] in ("MAX", "MIN"):
                return V(iconst(INT_RANGE[q[-2]][1 if q[-1] == "MAX" else 0]), q[-2])
            return ExtV(q)
        if r[0] == "struct":
            return ExtV([r[1][0].name(), r[1][1]])
        raise Unsupported("path " + "::".join(p))

    def const_value(self, m, node):
        key = m.name() + "::" + node["name"]
        self.used_consts.add(key)
        if self.opaque_consts and key in OPAQUE_CONSTS:
            return V(var(OPAQUE_CONSTS[key]), "f64")
        if key in self.sym_consts:
            return V(self.sym_consts[key], node["ty"])
        if key not in self.const_cache:
            if node.get("static") and node.get("mut"):
                raise Unsupported("static mut")
            fr = Frame(None, m)
            v = self.expr(node["e"], {}, State({}, TRUE), fr, hint=node["ty"])
            self.const_cache[key] = self.coerce(v, node["ty"])
        return self.const_cache[key]

    def x_ref(self, e, scope, st, fr, hint):
        if e["mut"]:
            try:
                return self.lvalue(e["e"], scope, st, fr)
            except Unsupported:
                pass
        return self.expr(e["e"], scope, st, fr, hint)

    def x_un(self, e, scope, st, fr, hint):
        v = self.expr(e["e"], scope, st, fr, hint)
        if v is None:
            return None
        if e["op"] == "*":
            return self.rv(v, st)
        v = self.num(v, st)
        if e["op"] == "-":
            if v.e.sort == "Z":
                r = V(ineg(v.e), v.ty)
                self.range_obl(r, st, fr, "negation")
                return r
            return V(neg(v.e), v.ty)
        if e["op"] == "!":
            if v.ty != "bool":
                raise Unsupported("bitwise not")
            return V(not_(v.e), "bool")
        raise Unsupported("unary " + e["op"])

    def range_obl(self, r, st, fr, desc):
        if r.ty in INT_RANGE:
            lo, hi = INT_RANGE[r.ty]
            self.obl("int-range", st, and_(le(iconst(lo), r.e), le(r.e, iconst(hi))), fr, "%s stays in %s" % (desc, r.ty))

    def unify(self, a, b):
        if a.ty == b.ty:
            return a.ty
        if a.ty == "int" and b.ty in INT_RANGE:
            return b.ty
        if b.ty == "int" and a.ty in INT_RANGE:
            return a.ty
        raise Unsupported("operands of types %s and %s" % (a.ty, b.ty))

    def binop(self, op, a, b, st, fr):
        if op in ("&&", "||"):
            raise Unsupported("unexpected boolean operator")
        ty = self.unify(a, b)
        if op in ("<", "<=", ">", ">=", "==", "!="):
            x, y = a.e, b.e
            if op in ("==", "!=") and ty[:1] == "u" and x.op == "imod" and x.args[1] is iconst(2) and y is iconst(1):
                # unsigned: odd is not even
                op, y = {"==": "!=", "!=": "=="}[op], iconst(0)
            r = {"<": lambda: lt(x, y), "<=": lambda: le(x, y), ">": lambda: lt(y, x), ">=": lambda: le(y, x),
                 "==": lambda: eq(x, y), "!=": lambda: not_(eq(x, y))}[op]()
            return V(r, "bool")
        if ty == "f64":
            f = {"+": add, "-": sub, "*": mul, "/": div}.get(op)
            if f is None:
                raise Unsupported("float operator " + op)
            return V(f(a.e, b.e), "f64")
        if ty == "bool":
            f = {"&": and_, "|": or_}.get(op)
            if f is None:
                raise Unsupported("bool operator " + op)
            return V(f(a.e, b.e), "bool")
        f = {"+": iadd, "-": isub, "*": imul, "/": idiv, "%": imod}.get(op)
        if f is None:
            raise Unsupported("integer operator " + op)
        if op in "/%":
            self.obl("int-div", st, not_(eq(b.e, iconst(0))), fr, "divisor is not zero")
        r = V(f(a.e, b.e), ty)
        self.range_obl(r, st, fr, {"+": "sum", "-": "difference", "*": "product", "/": "quotient", "%": "remainder"}[op])
        return r

    def x_bin(self, e, scope, st, fr, hint):
        op = e["op"].replace(" ", "")
        if op in ("&&", "||"):
            a = self.num(self.expr(e["l"], scope, st, fr), st)
            # the right operand runs only when the left one does not decide
            s2 = st.copy()
            s2.alive = and_(st.alive, a.e if op == "&&" else not_(a.e))
            if s2.alive is FALSE:
                return a
            b = self.num(self.expr(e["r"], scope, s2, fr), s2)
            return V((and_ if op == "&&" else or_)(a.e, b.e), "bool")
        if op.endswith("=") and op not in ("==", "<=", ">=", "!="):
            r = self.expr(e["r"], scope, st, fr)
            lv = self.lvalue(e["l"], scope, st, fr)
            a = self.num(self.read(lv, st), st)
            v = self.binop(op[:-1], a, self.num(r, st), st, fr)
            self.write(lv, v, st)
            return UNIT
        a = self.expr(e["l"], scope, st, fr, hint)
        if st.alive is FALSE:
            return None
        b = self.expr(e["r"], scope, st, fr, hint)
        if st.alive is FALSE:
            return None
        return self.binop(op, self.num(a, st), self.num(b, st), st, fr)

    def x_assign(self, e, scope, st, fr, hint):
        h = None
        if e["l"]["k"] == "path" and e["l"]["path"] == ["_"]:
            self.expr(e["r"], scope, st, fr)
            return UNIT
        if e["l"]["k"] == "tuple":
            v = self.rv(self.expr(e["r"], scope, st, fr), st)
            for l, w in zip(e["l"]["es"], v.items):
                self.write(self.lvalue(l, scope, st, fr), w, st)
            return UNIT
        v = self.expr(e["r"], scope, st, fr)
        if st.alive is FALSE:
            return None
        lv = self.lvalue(e["l"], scope, st, fr)
        if isinstance(v, FromFn):
            old = self.rv(self.read(lv, st), st)
            n = iconst(len(old.items)) if isinstance(old, ListV) else old.n
            v = self.mk_from_fn(v, n)
        old = st.store.get(lv.slot)
        if isinstance(v, MutRef) and e["l"]["k"] != "un":
            pass
        elif isinstance(v, MutRef):
            v = self.rv(v, st)
        if isinstance(v, V) and v.ty == "int":
            try:
                o = self.rv(self.read(lv, st), st)
                if isinstance(o, V):
                    v = V(v.e, o.ty)
            except Exception:
                pass
        self.write(lv, v, st)
        return UNIT

    def x_cast(self, e, scope, st, fr, hint):
        v = self.num(self.expr(e["e"], scope, st, fr), st)
        ty = e["ty"].replace(" ", "")
        return self.cast(v, ty, st, fr)

    def cast(self, v, ty, st, fr):
        if v.ty == ty:
            return v
        if ty == "f64":
            if v.e.sort == "Z":
                return V(i2r(v.e), "f64")
            raise Unsupported("cast %s as f64" % v.ty)
        if ty in INT_RANGE:
            lo, hi = INT_RANGE[ty]
            if v.ty == "bool":
                return V(ite(v.e, iconst(1), iconst(0)), ty)
            if v.e.sort == "Z":
                if v.ty in INT_RANGE:
                    l2, h2 = INT_RANGE[v.ty]
                    if not (lo <= l2 and h2 <= hi) and (l2, h2) in SMALL_INT and (lo, hi) in SMALL_INT:
                        return V(self.wrap(v.e, lo, hi, l2, h2), ty)
                    a, b = self.irange(v.e, l2, h2)
                    if not (lo <= l2 and h2 <= hi) and not (lo <= a and b <= hi):
                        if l2 == 0:
                            # unsigned source: the low bits, exactly
                            w = hi - lo + 1
                            return V(isub(imod(iadd(v.e, iconst(-lo)), iconst(w)), iconst(-lo)) if lo else imod(v.e, iconst(w)), ty)
                        self.obl("int-cast", st, and_(le(iconst(lo), v.e), le(v.e, iconst(hi))), fr, "cast to %s keeps the value" % ty)
                return V(v.e, ty)
            if v.e.sort == "R":
                # Rust: truncate towards zero, saturate
                return V(self.trunc(v.e, ty), ty)
        raise Unsupported("cast %s as %s" % (v.ty, ty))

    def irange(self, e, lo, hi, depth=0):
        """interval containing the integer e, which lies in [lo, hi]"""
        if depth > 30:
            return lo, hi
        r = lambda i: self.irange(e.args[i], -math.inf, math.inf, depth + 1)
        a, b = lo, hi
        if e.op == "iconst":
            return e.x, e.x
        if e.op == "var" and e.x == "number_of_links":
            a, b = 1, 255
        elif e.op == "var":
            for k, n in self.binders:
                if k is e:
                    a, b = 0, self.irange(n, 0, math.inf, depth + 1)[1] - 1
        elif e.op == "iadd":
            p, q = r(0), r(1)
            a, b = p[0] + q[0], p[1] + q[1]
        elif e.op == "isub":
            p, q = r(0), r(1)
            a, b = p[0] - q[1], p[1] - q[0]
        elif e.op == "ite":
            p, q = r(1), r(2)
            a, b = min(p[0], q[0]), max(p[1], q[1])
        elif e.op == "imod" and e.args[1].op == "iconst":
            a, b = 0 if r(0)[0] >= 0 else 1 - abs(e.args[1].x), abs(e.args[1].x) - 1
        return max(a, lo), min(b, hi)

    def wrap(self, e, lo, hi, l2, h2):
        """two's complement of a value in [l2, h2] in the type [lo, hi]"""
        w = hi - lo + 1
        r, k = e, 0
        for j in range(1, (h2 - lo) // w + 1):
            r = ite(lt(iconst(hi + (j - 1) * w), e), isub(e, iconst(j * w)), r)
        for j in range(1, (hi - l2) // w + 1):
            r = ite(lt(e, iconst(lo - (j - 1) * w)), iadd(e, iconst(j * w)), r)
        return r

    def trunc(self, e, ty):
        if e.op == "const":
            lo, hi = INT_RANGE[ty]
            t = int(e.x)
            return iconst(max(lo, min(hi, t)))
        if e.op == "i2r":
            lo, hi = INT_RANGE[ty]
        if self.ranges:
            n = self.ranges.whole(e)
            lo, hi = INT_RANGE[ty]
            if n is not None and max(lo, 0) <= n <= hi:
                return iconst(n)
        return mk("fn", (e,), "sat_" + ty, "Z")

    def x_tuple(self, e, scope, st, fr, hint):
        if not e["es"]:
            return UNIT
        vs = []
        hs = split_tuple_ty(hint, len(e["es"]))
        for a, h in zip(e["es"], hs):
            v = self.expr(a, scope, st, fr, h)
            if st.alive is FALSE:
                return None
            vs.append(v)
        return TupV(vs)

    def x_array(self, e, scope, st, fr, hint):
        return ListV([self.rv(self.expr(a, scope, st, fr), st) for a in e["es"]])

    def x_repeat(self, e, scope, st, fr, hint):
        v = self.expr(e["e"], scope, st, fr)
        n = self.num(self.expr(e["n"], scope, st, fr), st).e
        if n.op == "iconst" and n.x <= 64:
            return ListV([v] * n.x)
        return SeqV(n, lambda i: v)

    def x_struct(self, e, scope, st, fr, hint):
        p = e["path"]
        if p == ["Self"] and fr.selfty:
            path = fr.selfty
        else:
            r = self.crate.resolve(fr.module, p, ns="type")
            if r is None or r[0] != "struct":
                raise Unsupported("struct literal " + "::".join(p))
            path = r[1][0].name() + "::" + r[1][1]
        fields = {}
        if e.get("rest"):
            base = self.rv(self.expr(e["rest"], scope, st, fr), st)
            fields.update(base.fields)
        for n, x in e["fields"]:
            fields[n] = self.rv(self.expr(x, scope, st, fr), st)
        return StructV(path, fields)

    def x_field(self, e, scope, st, fr, hint):
        v = self.rv(self.expr(e["e"], scope, st, fr), st)
        if isinstance(v, StructV):
            if e["m"] in v.fields:
                return v.fields[e["m"]]
            raise Unsupported("no field " + e["m"])
        if isinstance(v, TupV):
            return v.items[int(e["m"])]
        raise Unsupported("field of %r" % (v,))

    def bounds(self, v, i, st, fr):
        if isinstance(v, ListV):
            if i.op != "iconst":
                self.obl("index", st, and_(le(iconst(0), i), lt(i, iconst(len(v.items)))), fr, "index in bounds")
            elif not i.x < len(v.items):
                self.obl("index", st, FALSE, fr, "index in bounds")
        elif isinstance(v, SeqV):
            self.obl("index", st, and_(le(iconst(0), i), lt(i, v.n)), fr, "index in bounds")

    def x_index(self, e, scope, st, fr, hint):
        v = self.rv(self.expr(e["e"], scope, st, fr), st)
        iv = self.rv(self.expr(e["i"], scope, st, fr), st)
        if isinstance(iv, RangeV):
            if isinstance(v, ListV):
                lo = iv.lo.e.x if iv.lo else 0
                hi = iv.hi.e.x + (1 if iv.incl else 0) if iv.hi else len(v.items)
                return ListV(v.items[lo:hi])
            raise Unsupported("slice of a symbolic sequence")
        i = self.num(iv, st).e
        self.bounds(v, i, st, fr)
        if isinstance(v, ListV) and i.op != "iconst":
            # table lookup with symbolic index
            r = v.items[-1]
            for k in range(len(v.items) - 2, -1, -1):
                r = self.merge(eq(i, iconst(k)), v.items[k], r)
            return r
        return self.elem(v, i)

    def x_range(self, e, scope, st, fr, hint):
        lo = self.num(self.expr(e["lo"], scope, st, fr), st) if e["lo"] else None
        hi = self.num(self.expr(e["hi"], scope, st, fr), st) if e["hi"] else None
        return RangeV(lo, hi, e["incl"])

    def x_closure(self, e, scope, st, fr, hint):
        return CloV(e["ps"], e["b"], dict(scope), fr.module, fr.fn)

    def x_block(self, e, scope, st, fr, hint):
        if e.get("label"):
            raise Unsupported("labelled block")
        return self.block(e["b"], scope, st, fr, hint)

    def x_return(self, e, scope, st, fr, hint):
        v = self.expr(e["e"], scope, st, fr, hint) if e["e"] else UNIT
        if st.alive is FALSE:
            return None
        if self.loop_symbolic(fr):
            raise Unsupported("return inside a symbolic loop")
        fr.returns.append((st.alive, self.rv(self.coerce(v, fr.fn.ret if fr.fn else None), st)))
        st.alive = FALSE
        return None

    def loop_symbolic(self, fr):
        return any(l.get("symbolic") for l in fr.loops)

    def x_letcond(self, e, scope, st, fr, hint):
        raise Unsupported("if let")

    def x_if(self, e, scope, st, fr, hint):
        c = self.num(self.expr(e["c"], scope, st, fr), st).e
        if self.ranges:
            c = self.ranges.known(c)
        if st.alive is FALSE:
            return None
        s1, s2 = st.copy(), st.copy()
        s1.alive = and_(st.alive, c)
        s2.alive = and_(st.alive, not_(c))
        v1 = self.block(e["t"], scope, s1, fr, hint) if s1.alive is not FALSE else None
        if s2.alive is not FALSE:
            v2 = self.expr(e["f"], scope, s2, fr, hint) if e["f"] else UNIT
        else:
            v2 = None
        return self.join(c, s1, v1, s2, v2, st)

    def join(self, c, s1, v1, s2, v2, st):
        d1, d2 = s1.alive is FALSE, s2.alive is FALSE
        m = self.merge_states(c, s1, s2)
        st.store, st.alive = m.store, m.alive
        if d1 and d2:
            st.alive = FALSE
            return None
        if d1:
            return v2
        if d2:
            return v1
        return self.merge(c, v1, v2)

    def pat_cond(self, p, v, st, fr):
        """(condition, bindings)"""
        k = p["k"]
        if k == "wild":
            return TRUE, []
        if k == "ident":
            # a constant pattern or a binding
            r = self.crate.resolve(fr.module, [p["name"]])
            if r is not None and r[0] == "const":
                return eq(v.e, self.const_value(*r[1]).e), []
            return TRUE, [(p, v)]
        if k == "lit":
            l = self.expr(p["e"], {}, st, fr)
            return eq(v.e, l.e), []
        if k == "or":
            c = FALSE
            for q in p["ps"]:
                c2, b = self.pat_cond(q, v, st, fr)
                if b:
                    raise Unsupported("binding in or-pattern")
                c = or_(c, c2)
            return c, []
        if k == "range":
            c = TRUE
            if p["lo"]:
                c = and_(c, le(self.expr(p["lo"], {}, st, fr).e, v.e))
            if p["hi"]:
                h = self.expr(p["hi"], {}, st, fr).e
                c = and_(c, le(v.e, h) if p["incl"] else lt(v.e, h))
            return c, []
        if k == "refpat":
            return self.pat_cond(p["p"], v, st, fr)
        if k == "tuple" and isinstance(v, TupV):
            c, bs = TRUE, []
            for q, w in zip(p["ps"], v.items):
                c2, b2 = self.pat_cond(q, self.rv(w, st), st, fr)
                c = and_(c, c2)
                bs += b2
            return c, bs
        raise Unsupported("match pattern " + k)

    def x_match(self, e, scope, st, fr, hint):
        v = self.rv(self.expr(e["e"], scope, st, fr), st)
        if st.alive is FALSE:
            return None
        return self.match_arms(e["arms"], 0, v, scope, st, fr, hint)

    def match_arms(self, arms, i, v, scope, st, fr, hint):
        if i == len(arms):
            self.obl("unreachable", st, FALSE, fr, "match is exhaustive")
            st.alive = FALSE
            return None
        a = arms[i]
        c, bs = self.pat_cond(a["p"], v, st, fr)
        s1, s2 = st.copy(), st.copy()
        sc = dict(scope)
        for p, w in bs:
            self.bind(p, w, sc, s1, fr)
        if a["g"]:
            g = self.num(self.expr(a["g"], sc, s1, fr), s1).e
            c = and_(c, g)
        if self.ranges:
            c = self.ranges.known(c)
        s1.alive = and_(st.alive, c)
        s2.alive = and_(st.alive, not_(c))
        v1 = self.expr(a["b"], sc, s1, fr, hint) if s1.alive is not FALSE else None
        if c is TRUE:
            st.store, st.alive = s1.store, s1.alive
            return v1
        # exhaustiveness is rustc's: the last arm is the default
        if i == len(arms) - 1:
            st.store, st.alive = s1.store, s1.alive
            if st.alive is not FALSE:
                st.alive = or_(st.alive, and_(s2.alive, FALSE))
            return v1
        v2 = self.match_arms(arms, i + 1, v, scope, s2, fr, hint) if s2.alive is not FALSE else None
        return self.join(c, s1, v1, s2, v2, st)

    def x_macro(self, e, scope, st, fr, hint):
        n = e["name"]
        if n in ("panic", "unreachable", "todo", "unimplemented"):
            self.obl("panic", st, FALSE, fr, "%s! is not reached" % n)
            st.alive = FALSE
            return None
        if n in ("assert", "debug_assert"):
            c = self.num(self.expr(e["args"][0], scope, st, fr), st).e
            self.obl("panic", st, c, fr, "assert! holds")
            if self.loop_symbolic(fr):
                return UNIT
            st.alive = and_(st.alive, c)
            return UNIT
        if n in ("println", "print", "eprintln", "eprint", "dbg"):
            return UNIT
        if n in ("assert_eq", "debug_assert_eq", "assert_ne"):
            a = self.num(self.expr(e["args"][0], scope, st, fr), st)
            b = self.num(self.expr(e["args"][1], scope, st, fr), st)
            c = eq(a.e, b.e)
            self.obl("panic", st, not_(c) if n == "assert_ne" else c, fr, n + "! holds")
            return UNIT
        if n == "vec":
            if e.get("rep"):
                v = self.expr(e["rep"][0], scope, st, fr)
                k = self.num(self.expr(e["rep"][1], scope, st, fr), st).e
                if k.op == "iconst" and k.x <= 64:
                    return ListV([v] * k.x)
                return SeqV(k, lambda i: v)
            if e["args"] is not None:
                return ListV([self.expr(a, scope, st, fr) for a in e["args"]])
        if n == "matches":
            raise Unsupported("matches!")
        raise Unsupported("macro " + n)

    # --- calls -------------------------------------------------------------------
    def x_call(self, e, scope, st, fr, hint):
        fe = e["f"]
        f = self.rv(self.expr(fe, scope, st, fr), st)
        args = []
        for a in e["args"]:
            v = self.expr(a, scope, st, fr)
            if st.alive is FALSE:
                return None
            args.append(v)
        if isinstance(f, ExtV):
            return self.ext_call(f.path, args, st, fr, hint, fe)
        if isinstance(f, FnV):
            # plain & arguments are values; &mut stay references
            args = [a if isinstance(a, MutRef) and "mut" in str(p.get("ty", "")) else self.rv(a, st)
                    for a, p in zip(args, f.fn.params)] if len(args) == len(f.fn.params) else args
            save = self.cur_generics if hasattr(self, "cur_generics") else None
            r = self.call_fn(f.fn, args, st)
            return r
        args = [a for a in args]
        return self.call_value(f, args, st, fr)

    def ext_call(self, p, args, st, fr, hint, fe):
        last = p[-1]
        if last == "from_fn":
            f = args[0]
            ff = FromFn(lambda i, s: self.call_value(f, [V(i, "usize")], s, fr), st)
            if hint:
                n = self.len_of_type(hint, fr, st)
                if n is not None:
                    return self.mk_from_fn(ff, n)
            return ff
        if len(p) >= 2 and p[-2] == "f64" and last != "from":
            return self.method(args[0], last, args[1:], st, fr)
        if len(p) >= 2 and p[-2] == "Vec" and last in ("new", "with_capacity"):
            return ListV([])
        if len(p) >= 2 and p[-2] in INT_RANGE and last == "from":
            return self.cast(self.num(args[0], st), p[-2], st, fr)
        if len(p) >= 2 and p[-2] == "f64" and last == "from":
            return self.cast(self.num(args[0], st), "f64", st, fr)
        if last in ("Some", "Ok") and len(args) == 1:
            return args[0]
        r = self.ext_hook(p, args, st, fr)
        if r is not None:
            return r
        raise Unsupported("external function " + "::".join(p))

    def ext_hook(self, p, args, st, fr):
        return None

    def len_of_type(self, t, fr, st):
        t = t.replace(" ", "").lstrip("&")
        if t.startswith("[") and t.endswith("]") and ";" in t:
            # outermost length is after the last ';' at depth 1
            d = 0
            for i in range(len(t) - 1, -1, -1):
                if t[i] == "]":
                    d += 1
                elif t[i] == "[":
                    d -= 1
                elif t[i] == ";" and d == 1:
                    n = t[i + 1:-1]
                    if n.isdigit():
                        return iconst(int(n))
                    v = self.named_len(n, fr, st)
                    return v
        return None

    def named_len(self, n, fr, st):
        try:
            return self.global_path(n.split("::"), st, fr).e
        except Unsupported:
            return var("const_generic_" + n, "Z")

    # --- method calls --------------------------------------------------------------
    def x_mcall(self, e, scope, st, fr, hint):
        m = e["m"]
        if m == "iter_mut":
            lv = self.lvalue(e["e"], scope, st, fr)
            v = self.rv(self.read(lv, st), st)
            # follow references so that writes reach the owner
            while isinstance(st.store[lv.slot], MutRef) and True:
                o = st.store[lv.slot]
                lv = MutRef(o.slot, o.path + lv.path)
            if isinstance(v, ListV):
                return ListV([MutRef(lv.slot, lv.path + (i,)) for i in range(len(v.items))])
            if isinstance(v, SeqV):
                return SymIterMut(lv, v.n)
            raise Unsupported("iter_mut of %r" % (v,))
        if m == "push":
            lv = self.lvalue(e["e"], scope, st, fr)
            v = self.rv(self.read(lv, st), st)
            x = self.rv(self.expr(e["args"][0], scope, st, fr), st)
            if isinstance(v, ListV):
                if self.loop_symbolic(fr):
                    raise Unsupported("push in a symbolic loop")
                self.write(lv, ListV(v.items + [x]), st)
                return UNIT
            raise Unsupported("push")
        recv = self.expr(e["e"], scope, st, fr)
        if st.alive is FALSE:
            return None
        if m in ("for_each", "map", "fold") and e["args"] and False:
            pass
        args = []
        for a in e["args"]:
            v = self.expr(a, scope, st, fr)
            if st.alive is FALSE:
                return None
            args.append(v)
        rr = self.rv(recv, st)
        if isinstance(rr, StructV):
            parts = rr.path.split("::")
            mod = self.crate.modules["::".join(parts[:-1])]
            f = mod.impls.get(parts[-1], {}).get(m)
            if f is None:
                raise Unsupported("method %s of %s" % (m, rr.path))
            return self.call_fn(f, [recv] + args, st)
        return self.method(rr, m, args, st, fr, e)

    def seq_len(self, v):
        if isinstance(v, ListV):
            return iconst(len(v.items))
        if isinstance(v, (SeqV, SymIterMut)):
            return v.n
        if isinstance(v, ZipSym):
            return self.seq_len(v.a)
        raise Unsupported("length of %r" % (v,))

    def to_seq(self, v, st, fr):
        if isinstance(v, RangeV):
            if v.hi is None or v.lo is None:
                raise Unsupported("open range")
            ty = self.unify(v.lo, v.hi)
            hi = v.hi.e
            n = isub(ioff(hi, 1) if v.incl else hi, v.lo.e)
            lo = v.lo.e
            if n.op == "iconst" and n.x <= 0:
                return ListV([])
            if n.op == "iconst" and n.x <= 4:
                return ListV([V(iadd(lo, iconst(k)) if lo.op != "iconst" else iconst(lo.x + k), ty) for k in range(n.x)])
            return SeqV(n, lambda k: V(iadd(lo, k), ty))
        return v

    def method(self, v, m, args, st, fr, e=None):
        v = self.rv(v, st)
        if isinstance(v, V):
            return self.scalar_method(v, m, args, st, fr)
        if isinstance(v, RangeV):
            if m == "contains":
                x = self.num(args[0], st).e
                c = TRUE
                if v.lo is not None:
                    c = and_(c, le(v.lo.e, x))
                if v.hi is not None:
                    c = and_(c, le(x, v.hi.e) if v.incl else lt(x, v.hi.e))
                return V(c, "bool")
            v = self.to_seq(v, st, fr)
        if isinstance(v, RangeV):
            raise Unsupported("range method " + m)
        if isinstance(v, (ListV, SeqV, FlatV, SymIterMut, ZipSym)):
            return self.seq_method(v, m, args, st, fr, e)
        if isinstance(v, OpaqueV):
            r = self.opaque_method(v, m, args, st, fr)
            if r is not None:
                return r
        if m in ("unwrap", "clone", "to_owned", "into", "expect"):
            return v
        raise Unsupported("method %s on %r" % (m, v))

    def opaque_method(self, v, m, args, st, fr):
        return None

    def scalar_method(self, v, m, args, st, fr):
        e = v.e
        if m in ("clone", "to_owned", "unwrap", "expect", "borrow", "as_ref", "copied", "cloned"):
            if v.ty == "tryint":
                return V(e, "int")
            return v
        if m in ("try_into", "into"):
            if v.e.sort == "Z":
                # the target is inferred by rustc; every use below treats the value as an exponent or float
                return V(e, "int")
            return v
        A = [self.num(a, st) for a in args]
        if v.ty == "f64":
            if m == "powi":
                return V(powi(e, A[0].e), "f64")
            if m == "powf":
                return V(powf(e, A[0].e), "f64")
            if self.ranges and m == "abs":
                s = self.ranges.known(le(ZERO, e))
                if s.op == "bconst":
                    return V(e if s.x else neg(e), "f64")
            if m == "signum":
                # a real zero is the positive zero
                if self.ranges:
                    s = self.ranges.known(le(ZERO, e))
                    if s.op == "bconst":
                        return V(ONE if s.x else const(-1), "f64")
                return V(ite(le(ZERO, e), ONE, const(-1)), "f64")
            if self.ranges and m in ("floor", "trunc"):
                n = self.ranges.whole(e)
                if n is not None and (m == "floor" or n >= 0):
                    return V(const(n), "f64")
            if m in ("exp", "ln", "sqrt", "sinh", "cosh", "tanh", "sin", "cos", "tan", "asin", "acos", "atan", "asinh", "acosh", "atanh",
                     "abs", "log10", "ceil", "floor", "cbrt", "round", "trunc", "log2"):
                return V(fn(m, e), "f64")
            if m == "exp_m1":
                return V(sub(fn("exp", e), ONE), "f64")
            if m == "ln_1p":
                return V(fn("ln", add(ONE, e)), "f64")
            if m == "exp2":
                return V(powf(const(2), e), "f64")
            if m == "recip":
                return V(div(ONE, e), "f64")
            if m == "mul_add":
                return V(add(mul(e, A[0].e), A[1].e), "f64")
            if m == "max":
                return V(ite(le(A[0].e, e), e, A[0].e), "f64")
            if m == "min":
                return V(ite(le(e, A[0].e), e, A[0].e), "f64")
            if m == "clamp":
                return V(ite(lt(e, A[0].e), A[0].e, ite(lt(A[1].e, e), A[1].e, e)), "f64")
            if m == "log":
                return V(div(fn("ln", e), fn("ln", A[0].e)), "f64")
            if m == "hypot":
                return V(fn("sqrt", add(powi(e, iconst(2)), powi(A[0].e, iconst(2)))), "f64")
            if m == "sin_cos":
                return TupV([V(fn("sin", e), "f64"), V(fn("cos", e), "f64")])
            if m == "to_radians":
                return V(mul(e, div(fn("pi"), const(180))), "f64")
            if m in ("add", "sub", "mul", "div"):
                return self.binop({"add": "+", "sub": "-", "mul": "*", "div": "/"}[m], v, A[0], st, fr)
            if m == "neg":
                return V(neg(e), "f64")
            if m in ("lt", "le", "gt", "ge", "eq", "ne"):
                return self.binop({"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!="}[m], v, A[0], st, fr)
            raise Unsupported("f64 method " + m)
        if v.ty in INT_RANGE or v.ty == "int":
            if m == "pow":
                r = V(ipow(e, A[0].e), v.ty)
                self.range_obl(r, st, fr, "power")
                return r
            if m == "max":
                ty = self.unify(v, A[0])
                return V(ite(le(A[0].e, e), e, A[0].e), ty)
            if m == "min":
                ty = self.unify(v, A[0])
                return V(ite(le(e, A[0].e), e, A[0].e), ty)
            if m == "abs":
                return V(ite(le(iconst(0), e), e, ineg(e)), v.ty)
            if m == "wrapping_add" or m == "wrapping_sub" or m == "wrapping_mul":
                raise Unsupported(m)
            if m == "saturating_sub":
                r = isub(e, A[0].e)
                lo = INT_RANGE[v.ty][0] if v.ty in INT_RANGE else 0
                return V(ite(le(iconst(lo), r), r, iconst(lo)), v.ty)
            if m in ("lt", "le", "gt", "ge", "eq", "ne"):
                return self.binop({"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!="}[m], v, A[0], st, fr)
        raise Unsupported("method %s on %s" % (m, v.ty))

    # --- sequences -------------------------------------------------------------------
    def with_binder(self, n, f):
        """evaluate f(k) for a fresh 0 <= k < n"""
        k = fresh("k", "Z")
        self.binders.append((k, n))
        try:
            return k, f(k)
        finally:
            self.binders.pop()

    def seq_method(self, v, m, args, st, fr, e):
        if m in ("iter", "into_iter", "copied", "cloned", "collect", "to_vec", "as_slice", "to_owned", "clone", "by_ref", "unwrap", "as_ref"):
            return v
        if m == "len" or m == "count":
            return V(self.seq_len(v), "usize")
        if m == "map":
            f = args[0]
            if isinstance(v, ListV):
                return ListV([self.rv_keep(self.call_value(f, [x], st, fr), st) for x in v.items])
            if isinstance(v, SeqV):
                return self.lazy(v.n, lambda k: self.pure_call(f, [v.f(k)], st, fr))
            if isinstance(v, FlatV):
                o = v.seq
                return FlatV(self.method(o, "map", [NatV(lambda a, s: self.method(a[0], "map", [f], s, fr))], st, fr))
        if m == "enumerate":
            if isinstance(v, ListV):
                return ListV([TupV([V(iconst(i), "usize"), x]) for i, x in enumerate(v.items)])
            if isinstance(v, SeqV):
                return SeqV(v.n, lambda k: TupV([V(k, "usize"), v.f(k)]))
            if isinstance(v, SymIterMut):
                return ZipSym(SeqV(v.n, lambda k: V(k, "usize")), v)
        if m == "zip":
            w = self.to_seq(self.rv(args[0], st), st, fr)
            return self.zip(v, w, st, fr)
        if m == "rev":
            if isinstance(v, ListV):
                return ListV(v.items[::-1])
            if isinstance(v, SeqV):
                return SeqV(v.n, lambda k: v.f(isub(isub(v.n, iconst(1)), k)))
        if m == "sum":
            return self.do_sum(v, st, fr)
        if m == "product":
            return self.do_prod(v, st, fr)
        if m == "flat_map":
            f = args[0]
            if isinstance(v, ListV):
                parts = [self.to_seq(self.call_value(f, [x], st, fr), st, fr) for x in v.items]
                if all(isinstance(p, ListV) for p in parts):
                    return ListV([y for p in parts for y in p.items])
                return FlatV(ListV(parts))
            return FlatV(SeqV(v.n, lambda k: self.to_seq(self.pure_call(f, [v.f(k)], st, fr), st, fr)))
        if m == "flatten":
            return FlatV(v)
        if m == "fold":
            return self.do_fold(v, args[0], args[1], st, fr)
        if m == "for_each":
            f = args[0]
            self.do_for(v, lambda x, s: self.call_value(f, [x], s, fr), st, fr)
            return UNIT
        if m in ("first", "last") and isinstance(v, ListV):
            return v.items[0 if m == "first" else -1]
        if m == "take" and isinstance(v, (ListV, SeqV)):
            n = self.num(args[0], st).e
            if isinstance(v, ListV) and n.op == "iconst":
                return ListV(v.items[:n.x])
        if m == "skip" and isinstance(v, (ListV, SeqV)):
            n = self.num(args[0], st).e
            if isinstance(v, ListV) and n.op == "iconst":
                return ListV(v.items[n.x:])
            if isinstance(v, SeqV) and n.op == "iconst":
                return SeqV(isub(v.n, n), lambda k: v.f(iadd(k, n)))
        if m == "windows" or m == "chunks":
            raise Unsupported(m)
        raise Unsupported("sequence method %s" % m)

    def rv_keep(self, v, st):
        return v

    def lazy(self, n, f):
        cache = {}

        def g(k):
            if k.id not in cache:
                cache[k.id] = f(k)
            return cache[k.id]
        return SeqV(n, g)

    def pure_call(self, f, args, st, fr):
        """call inside a symbolic element: must not change outer variables"""
        s2 = st.copy()
        before = dict(s2.store)
        v = self.call_value(f, args, s2, fr)
        for k, x in before.items():
            if s2.store.get(k) is not x:
                raise Unsupported("closure over a symbolic sequence changes outer state")
        # keep closure locals readable
        for k, x in s2.store.items():
            if k not in st.store:
                st.store[k] = x
        return self.rv(v, s2)

    def zip(self, v, w, st, fr):
        if isinstance(v, ListV) and isinstance(w, ListV):
            return ListV([TupV([a, b]) for a, b in zip(v.items, w.items)])
        if isinstance(v, (SymIterMut, ZipSym)) or isinstance(w, (SymIterMut, ZipSym)):
            return ZipSym(v, w)
        if isinstance(v, ListV) and isinstance(w, SeqV):
            return ListV([TupV([a, w.f(iconst(i))]) for i, a in enumerate(v.items)])
        if isinstance(v, SeqV) and isinstance(w, ListV):
            return ListV([TupV([v.f(iconst(i)), b]) for i, b in enumerate(w.items)])
        if isinstance(v, SeqV) and isinstance(w, SeqV):
            if v.n is not w.n:
                raise Unsupported("zip of different symbolic lengths")
            return SeqV(v.n, lambda k: TupV([v.f(k), w.f(k)]))
        raise Unsupported("zip of %r and %r" % (v, w))

    def do_sum(self, v, st, fr):
        if isinstance(v, ListV):
            if not v.items:
                return V(ZERO, "f64")
            xs = [self.num(x, st) for x in v.items]
            acc = xs[0]
            for x in xs[1:]:
                acc = self.binop("+", acc, x, st, fr)
            return acc
        if isinstance(v, SeqV):
            k, x = self.with_binder(v.n, lambda k: self.num(v.f(k), st))
            if x.e.sort != "R":
                raise Unsupported("integer sum over a symbolic range")
            return V(bsum(v.n, k, x.e), "f64")
        if isinstance(v, FlatV):
            o = v.seq
            if isinstance(o, ListV):
                return self.do_sum(ListV([self.do_sum(self.to_seq(self.rv(x, st), st, fr), st, fr) for x in o.items]), st, fr)
            k, x = self.with_binder(o.n, lambda k: self.num(self.do_sum(self.to_seq(self.rv(o.f(k), st), st, fr), st, fr), st))
            return V(bsum(o.n, k, x.e), "f64")
        raise Unsupported("sum of %r" % (v,))

    def do_prod(self, v, st, fr):
        if isinstance(v, ListV):
            if not v.items:
                return V(iconst(1), "int")
            xs = [self.num(x, st) for x in v.items]
            acc = xs[0]
            for x in xs[1:]:
                acc = self.binop("*", acc, x, st, fr)
            return acc
        if isinstance(v, SeqV):
            k, x = self.with_binder(v.n, lambda k: self.num(v.f(k), st))
            r = V(bprod(v.n, k, x.e), x.ty)
            if x.ty in INT_RANGE:
                self.range_obl(r, st, fr, "product")
            return r
        raise Unsupported("product of %r" % (v,))

    def do_fold(self, v, init, f, st, fr):
        s = self.new_slot()
        st.store[s] = self.rv(init, st)

        def body(x, s2):
            s2.store[s] = self.rv(self.call_value(f, [s2.store[s], x], s2, fr), s2)
        self.do_for(v, body, st, fr)
        return st.store[s]

    # --- loops ----------------------------------------------------------------------
    def x_for(self, e, scope, st, fr, hint):
        if e.get("label"):
            raise Unsupported("labelled loop")
        it = self.to_seq(self.rv(self.expr(e["e"], scope, st, fr), st), st, fr)

        def body(x, s):
            sc = dict(scope)
            self.bind(e["p"], x, sc, s, fr)
            self.block(e["b"], sc, s, fr)
        self.do_for(it, body, st, fr)
        return UNIT

    def x_break(self, e, scope, st, fr, hint):
        if e.get("label") or e.get("e") or not fr.loops:
            raise Unsupported("break form")
        fr.loops[-1]["breaks"].append(st.copy())
        st.alive = FALSE
        return None

    def x_continue(self, e, scope, st, fr, hint):
        if e.get("label") or not fr.loops:
            raise Unsupported("continue form")
        fr.loops[-1]["continues"].append(st.copy())
        st.alive = FALSE
        return None

    def run_body(self, body, x, st, fr, symbolic):
        """one iteration on state st (changed in place). returns the list of states that left by break"""
        lp = {"breaks": [], "continues": [], "symbolic": symbolic}
        fr.loops.append(lp)
        try:
            body(x, st)
        finally:
            fr.loops.pop()
        for c in lp["continues"]:
            self.absorb(st, c)
        return lp["breaks"]

    def absorb(self, st, c):
        """merge a state that left early (under c.alive) into st"""
        if st.alive is FALSE:
            st.store, st.alive = c.store, c.alive
            return
        m = self.merge_states(c.alive, c, st)
        st.store, st.alive = m.store, m.alive

    def do_for(self, it, body, st, fr):
        if isinstance(it, RangeV):
            it = self.to_seq(it, st, fr)
        if isinstance(it, FlatV):
            self.do_for(it.seq, lambda x, s: self.do_for(self.to_seq(self.rv(x, s), s, fr), body, s, fr), st, fr)
            return
        if isinstance(it, SeqV) and it.n.op == "iconst" and it.n.x <= 4:
            it = ListV([it.f(iconst(i)) for i in range(it.n.x)])
        if isinstance(it, ListV):
            exits = []
            for x in it.items:
                if st.alive is FALSE:
                    break
                exits += self.run_body(body, x, st, fr, False)
            for b in reversed(exits):
                self.absorb(st, b)
            return
        if isinstance(it, (SymIterMut, ZipSym)):
            return self.sym_update(it, body, st, fr)
        if isinstance(it, SeqV):
            return self.sym_for(it.n, it.f, body, st, fr)
        raise Unsupported("loop over %r" % (it,))

    def sym_update(self, it, body, st, fr):
        """for_each over iter_mut of symbolic arrays: element-wise update"""
        muts = []
        n = self.seq_len(it)
        st0 = st.copy()     # the elements are computed from the state before the loop

        def build(x, k, s):
            if isinstance(x, SymIterMut):
                cur = self.rv(self.read(x.lv, s), s)
                sl = self.new_slot()
                s.store[sl] = cur.f(k)
                muts.append((x, sl))
                return MutRef(sl)
            if isinstance(x, ZipSym):
                return TupV([build(x.a, k, s), build(x.b, k, s)])
            if isinstance(x, SeqV):
                return x.f(k)
            raise Unsupported("zip component %r" % (x,))

        def at(k):
            s = st0.copy()
            del muts[:]
            x = build(it, k, s)
            keep = dict(s.store)
            br = self.run_body(body, x, s, fr, True)
            if br or s.alive is not st0.alive:
                raise Unsupported("early exit in element-wise update")
            slots = {sl for _, sl in muts}
            for key, val in keep.items():
                if key in slots:
                    continue
                if s.store.get(key) is not val:
                    # scratch variables may be overwritten if they do not carry over: not modelled
                    if not self.scratch_ok(key, val, s):
                        raise Unsupported("element-wise update changes outer state")
            return [(m, s.store[sl]) for m, sl in muts]
        k, res = self.with_binder(n, at)
        for j, (m, _) in enumerate(list(res)):
            old = self.rv(self.read(m.lv, st), st)
            self.write(m.lv, self.lazy(old.n, lambda kk, j=j: at(kk)[j][1]), st)

    def scratch_ok(self, key, val, s):
        return False

    def scalars(self, v):
        """flatten a value into scalar leaves, or None"""
        if isinstance(v, V):
            return [v]
        if isinstance(v, (ListV, TupV)):
            out = []
            for x in v.items:
                y = self.scalars(x)
                if y is None:
                    return None
                out += y
            return out
        return None

    def rebuild_val(self, v, it):
        if isinstance(v, V):
            return next(it)
        return type(v)([self.rebuild_val(x, it) for x in v.items])

    def changed_slots(self, st, step):
        """slots of st changed by step (run with changed slots symbolic), with symbolic names"""
        names = {}
        for _ in range(12):
            s = st.copy()
            syms = {}
            for k, leaves in names.items():
                s.store[k] = self.rebuild_val(st.store[k], iter(leaves))
            keep = dict(s.store)
            n_obl = len(self.obls)
            out = step(s)
            del self.obls[n_obl:]
            new = [k for k in keep if s.store.get(k) is not keep[k] and k not in names and not self.same(s.store.get(k), keep[k])]
            if not new:
                return names, s, out
            for k in new:
                lv = self.scalars(st.store[k]) if st.store[k] is not None else None
                if st.store[k] is None:
                    # declared without value: assigned before use in each iteration
                    names[k] = None
                    del names[k]
                    nv = self.scalars(s.store[k])
                    if nv is None:
                        raise Unsupported("loop changes a non-scalar")
                    st.store[k] = self.rebuild_val(s.store[k], iter([V(fresh("uninit", x.e.sort), x.ty) for x in nv]))
                    lv = self.scalars(st.store[k])
                if lv is None:
                    raise Unsupported("loop changes a non-scalar variable")
                names[k] = [V(fresh("s", x.e.sort), self.num_ty(x)) for x in lv]
        raise Unsupported("loop state does not stabilise")

    def num_ty(self, x):
        return x.ty

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, V) and isinstance(b, V):
            return a.e is b.e
        return False

    def sym_for(self, n, item, body, st, fr):
        k = fresh("k", "Z")
        self.binders.append((k, n))

        def step(s):
            a0 = s.alive
            br = self.run_body(body, item(k), s, fr, True)
            return br
        try:
            names, s, br = self.changed_slots(st, step)
            # keep the obligations of one run with the final symbolic state
            s2 = st.copy()
            for key, leaves in names.items():
                s2.store[key] = self.rebuild_val(st.store[key], iter(leaves))
            br = step(s2)
            s = s2
        finally:
            self.binders.pop()
        if s.alive is FALSE and not br:
            raise Unsupported("loop body never completes")
        inits, syms, steps, where = [], [], [], []
        for key, leaves in names.items():
            i0 = self.scalars(st.store[key])
            s1 = self.scalars(s.store[key]) if s.alive is not FALSE else leaves
            for j, (a, b, c) in enumerate(zip(i0, leaves, s1)):
                inits.append(a.e)
                syms.append(b.e)
                steps.append(c.e)
                where.append((key, j, b.ty if b.ty != "int" else c.ty))
        if br:
            cond = self.break_cond(br, names, s, st)
            if cond is None:
                raise Unsupported("break in the middle of a loop body")
            finals = self.loop_node(n, k, cond, inits, syms, steps)
        else:
            finals = self.closed_forms(n, k, inits, syms, steps)
            if finals is None:
                finals = self.loop_node(n, k, TRUE, inits, syms, steps)
        byslot = {}
        for (key, j, ty), f in zip(where, finals):
            byslot.setdefault(key, []).append(V(f, ty))
        for key, leaves in byslot.items():
            st.store[key] = self.rebuild_val(st.store[key], iter(leaves))

    def break_cond(self, br, names, s, st):
        """continue-condition when every break happens before the iteration changes anything"""
        c = TRUE
        for b in br:
            for key, leaves in names.items():
                cur = self.scalars(b.store[key])
                if any(x.e is not y.e for x, y in zip(cur, leaves)):
                    return None
            cc = b.alive
            c = and_(c, not_(cc))
        # conditions are relative to the state's alive condition
        return c

    def closed_forms(self, n, k, inits, syms, steps):
        """closed form of each state variable after n iterations, if all have one"""
        at = {}      # sym -> value before iteration k (expression in k)
        fin = {}
        todo = list(range(len(syms)))
        symset = set(syms)
        progress = True
        while todo and progress:
            progress = False
            for i in list(todo):
                u = steps[i]
                deps = free_vars(u) & symset
                others = [d for d in deps if d is not syms[i]]
                if any(d not in at for d in others):
                    continue
                u = subst(u, {d: at[d] for d in others})
                r = self.recur(inits[i], syms[i], u, n, k)
                if r is None:
                    continue
                at[syms[i]], fin[i] = r
                todo.remove(i)
                progress = True
        if todo:
            return None
        return [fin[i] for i in range(len(syms))]

    def recur(self, init, s, u, n, k):
        """value before iteration k and after n iterations of s := u(s, k)"""
        if s not in free_vars(u):
            # overwritten each time
            km = isub(k, iconst(1))
            prev = subst(u, {k: km})
            return ite(eq(k, iconst(0)), init, prev), ite(lt(iconst(0), n), subst(u, {k: isub(n, iconst(1))}), init)
        if s.sort == "R":
            e = additive_rest(u, s)
            if e is not None and s not in free_vars(e):
                j = fresh("j", "Z")
                ej = subst(e, {k: j})
                return add(init, bsum(k, j, ej)), add(init, bsum(n, k, e))
            e = mult_rest(u, s)
            if e is not None and s not in free_vars(e):
                if k not in free_vars(e):
                    return mul(init, powi(e, k)), mul(init, powi(e, n))
                j = fresh("j", "Z")
                return mul(init, bprod(k, j, subst(e, {k: j}))), mul(init, bprod(n, k, e))
        else:
            # integer counter
            if u.op in ("iadd", "isub") and u.args[0] is s and u.args[1].op == "iconst":
                c = u.args[1].x if u.op == "iadd" else -u.args[1].x
                f = lambda t: iadd(init, t if c == 1 else imul(iconst(c), t))
                return f(k), ite(le(iconst(0), n), f(n), init) if n.op != "iconst" else f(n)
            if u.op == "imul" and (u.args[0] is s or u.args[1] is s):
                e = u.args[1] if u.args[0] is s else u.args[0]
                if s not in free_vars(e):
                    j = fresh("j", "Z")
                    return imul(init, bprod(k, j, subst(e, {k: j}))), imul(init, bprod(n, k, e))
        return None

    def loop_node(self, n, k, cond, inits, syms, steps):
        """generic loop: iterate k = 0.. while k < n (n may be None) and cond"""
        if n is iconst(0):
            return list(inits)
        vs = [k] + syms
        cl = lam(vs, cond)
        sl = [lam(vs, s) for s in steps]
        args = ([n] if n is not None else []) + list(inits) + [cl] + sl
        return [mk("loop", args, ("for" if n is not None else "while", len(syms), i), inits[i].sort) for i in range(len(syms))]

    def x_while(self, e, scope, st, fr, hint, cond_ast=True):
        if e.get("label"):
            raise Unsupported("labelled loop")
        k = fresh("k", "Z")
        ce = e.get("c")

        def step(s):
            c = self.num(self.expr(ce, scope, s, fr), s).e if ce is not None else TRUE
            s.alive = and_(s.alive, c)

            def body(x, s3):
                self.block(e["b"], scope, s3, fr)
            br = self.run_body(body, None, s, fr, True) if s.alive is not FALSE else []
            return c, br
        alive0 = st.alive
        names, s, out = self.changed_slots(st, step)
        s2 = st.copy()
        for key, leaves in names.items():
            s2.store[key] = self.rebuild_val(st.store[key], iter(leaves))
        c, br = step(s2)
        s = s2
        inits, syms, steps, where = [], [], [], []
        for key, leaves in names.items():
            i0 = self.scalars(st.store[key])
            s1 = self.scalars(s.store[key]) if s.alive is not FALSE else leaves
            for j, (a, b, d) in enumerate(zip(i0, leaves, s1)):
                inits.append(a.e)
                syms.append(b.e)
                steps.append(d.e)
                where.append((key, j, b.ty if b.ty != "int" else d.ty))
        if br:
            bc = self.break_cond(br, names, s, st)
            if bc is None:
                raise Unsupported("break in the middle of a loop body")
            c = and_(c, bc)
        finals = None
        # counting loop: while i < n { ..; i += 1 }
        parts = conjuncts(c)
        for q in parts:
            if q.op in ("lt", "le") and q.args[0] in syms:
                i = syms.index(q.args[0])
                b = q.args[1]
                if free_vars(b) & set(syms):
                    continue
                u = steps[i]
                if u.op == "iadd" and u.args[0] is syms[i] and is_const(u.args[1], 1):
                    n = isub(b if q.op == "lt" else ioff(b, 1), inits[i])
                    rest = TRUE
                    for p in parts:
                        if p is not q:
                            rest = and_(rest, p)
                    cnt = iadd(inits[i], k)
                    sub_k = {syms[i]: cnt}
                    steps2 = [subst(u2, sub_k) if j != i else None for j, u2 in enumerate(steps)]
                    idx = [j for j in range(len(syms)) if j != i]
                    if rest is TRUE:
                        f = self.closed_forms(n, k, [inits[j] for j in idx], [syms[j] for j in idx], [steps2[j] for j in idx])
                        if f is None:
                            f = self.loop_node(n, k, TRUE, [inits[j] for j in idx], [syms[j] for j in idx], [steps2[j] for j in idx])
                        finals = [None] * len(syms)
                        for j, x in zip(idx, f):
                            finals[j] = x
                        finals[i] = ite(le(inits[i], b if q.op == "lt" else ioff(b, 1)), b if q.op == "lt" else ioff(b, 1), inits[i])
                    else:
                        f = self.loop_node(n, k, subst(rest, sub_k), [inits[j] for j in idx], [syms[j] for j in idx], [steps2[j] for j in idx])
                        finals = [None] * len(syms)
                        for j, x in zip(idx, f):
                            finals[j] = x
                        # the counter itself is rarely used afterwards
                        finals[i] = fresh("counter", "Z")
                    break
        if finals is None:
            finals = self.loop_node(None, k, c, inits, syms, steps)
        byslot = {}
        for (key, j, ty), f in zip(where, finals):
            byslot.setdefault(key, []).append(V(f, ty))
        for key, leaves in byslot.items():
            st.store[key] = self.rebuild_val(st.store[key], iter(leaves))
        st.alive = alive0
        return UNIT

    def x_loop(self, e, scope, st, fr, hint):
        return self.x_while(e, scope, st, fr, hint)


def conjuncts(c):
    if c.op == "and":
        return conjuncts(c.args[0]) + conjuncts(c.args[1])
    return [c]


def additive_rest(u, s):
    """e with u = s + e, or None"""
    if u is s:
        return ZERO
    if u.op == "add":
        a, b = u.args
        if s not in free_vars(b):
            r = additive_rest(a, s)
            return None if r is None else add(r, b)
        if s not in free_vars(a):
            r = additive_rest(b, s)
            return None if r is None else add(a, r)
    if u.op == "sub":
        a, b = u.args
        if s not in free_vars(b):
            r = additive_rest(a, s)
            return None if r is None else (neg(b) if is_const(r, 0) else sub(r, b))
    if u.op == "ite":
        a = additive_rest(u.args[1], s)
        b = additive_rest(u.args[2], s)
        if a is not None and b is not None and s not in free_vars(u.args[0]):
            return ite(u.args[0], a, b)
    return None


def mult_rest(u, s):
    if u is s:
        return ONE
    if u.op == "mul":
        a, b = u.args
        if s not in free_vars(b):
            r = mult_rest(a, s)
            return None if r is None else mul(r, b)
        if s not in free_vars(a):
            r = mult_rest(b, s)
            return None if r is None else mul(a, r)
    if u.op == "div":
        a, b = u.args
        if s not in free_vars(b):
            r = mult_rest(a, s)
            return None if r is None else div(r, b)
    if u.op == "neg":
        r = mult_rest(u.args[0], s)
        return None if r is None else neg(r)
    return None


def split_tuple_ty(h, n):
    if not h:
        return [None] * n
    t = h.strip()
    if not (t.startswith("(") and t.endswith(")")):
        return [None] * n
    out, d, cur = [], 0, ""
    for ch in t[1:-1]:
        if ch in "([<":
            d += 1
        if ch in ")]>":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out if len(out) == n else [None] * n
