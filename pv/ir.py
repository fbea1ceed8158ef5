"""Hash-consed expression graph: the mathematical reading of the extracted Rust functions.

Sorts: 'R' (f64 read as a real number), 'Z' (machine integers read as integers, their
ranges are separate obligations), 'B' (bool).  Everything is immutable and shared.
"""
from fractions import Fraction

_table = {}
_count = [0]


class E:
    __slots__ = ("op", "args", "x", "sort", "id", "mb", "fv", "_lean", "size")

    def __repr__(self):
        return show(self)


def mk(op, args=(), x=None, sort="R"):
    key = (op, tuple(a.id for a in args), x, sort)
    e = _table.get(key)
    if e is not None:
        return e
    e = E()
    e.op, e.args, e.x, e.sort = op, tuple(args), x, sort
    e.id = _count[0]
    _count[0] += 1
    # mb: largest binder index bound inside (height based binders)
    m = 0
    for a in args:
        if a.mb > m:
            m = a.mb
    if op in BINDERS:
        m = max(m, x[0] if isinstance(x, tuple) else x)
    e.mb = m
    s = 1
    for a in args:
        s += a.size
    e.size = s
    e.fv = None
    e._lean = None
    _table[key] = e
    return e


BINDERS = {"sum", "prod", "lam"}


def const(v):
    return mk("const", (), Fraction(v), "R")


def iconst(v):
    return mk("iconst", (), int(v), "Z")


def bconst(v):
    return mk("bconst", (), bool(v), "B")


TRUE = bconst(True)
FALSE = bconst(False)
ZERO = const(0)
ONE = const(1)


def var(name, sort="R"):
    return mk("var", (), name, sort)


_fresh = [0]


def fresh(prefix, sort="R"):
    _fresh[0] += 1
    return var("%s!%d" % (prefix, _fresh[0]), sort)


def is_const(e, v=None):
    return e.op in ("const", "iconst") and (v is None or e.x == v)


def add(a, b):
    if a.op == "const" and b.op == "const":
        return const(a.x + b.x)
    if is_const(a, 0):
        return b
    if is_const(b, 0):
        return a
    return mk("add", (a, b))


def sub(a, b):
    if a.op == "const" and b.op == "const":
        return const(a.x - b.x)
    if is_const(b, 0):
        return a
    return mk("sub", (a, b))


def neg(a):
    if a.op == "const":
        return const(-a.x)
    return mk("neg", (a,))


def mul(a, b):
    if a.op == "const" and b.op == "const":
        return const(a.x * b.x)
    if is_const(a, 1):
        return b
    if is_const(b, 1):
        return a
    return mk("mul", (a, b))


def div(a, b):
    if is_const(b, 1):
        return a
    if a.op == "const" and b.op == "const" and b.x != 0:
        return const(a.x / b.x)
    return mk("div", (a, b))


def powi(a, n):
    """a raised to an integer; n is a Z expression"""
    if n.op == "iconst":
        if n.x == 1:
            return a
        if n.x == 0:
            return ONE
        if a.op == "const" and abs(n.x) < 64 and (a.x != 0 or n.x > 0):
            return const(a.x ** n.x)
    return mk("powi", (a, n))


def powf(a, b):
    if b.op == "const" and b.x.denominator == 1:
        return powi(a, iconst(b.x.numerator))
    if b.op == "i2r":  # powf(x, n as f64)
        return powi(a, b.args[0])
    if b.op == "const" and b.x == Fraction(1, 2):
        return fn("sqrt", a)
    return mk("powf", (a, b))


def fn(name, *args, sort="R"):
    return mk("fn", args, name, sort)


def i2r(z):
    """integer seen as a real; the cast is a ring homomorphism and is pushed inwards"""
    if z.op == "iconst":
        return const(z.x)
    if z.op == "iadd":
        return add(i2r(z.args[0]), i2r(z.args[1]))
    if z.op == "isub":
        return sub(i2r(z.args[0]), i2r(z.args[1]))
    if z.op == "imul":
        return mul(i2r(z.args[0]), i2r(z.args[1]))
    if z.op == "ineg":
        return neg(i2r(z.args[0]))
    if z.op == "ite":
        return ite(z.args[0], i2r(z.args[1]), i2r(z.args[2]))
    return mk("i2r", (z,))


def imul(a, b):
    if a.op == b.op == "iconst":
        return iconst(a.x * b.x)
    if is_const(a, 1):
        return b
    if is_const(b, 1):
        return a
    return mk("imul", (a, b), None, "Z")


def iadd(a, b):
    if a.op == b.op == "iconst":
        return iconst(a.x + b.x)
    if is_const(a, 0):
        return b
    if is_const(b, 0):
        return a
    # (x - c) + d, (x + c) + d
    if b.op == "iconst" and a.op in ("iadd", "isub") and a.args[1].op == "iconst":
        c = a.args[1].x if a.op == "iadd" else -a.args[1].x
        return ioff(a.args[0], c + b.x)
    return mk("iadd", (a, b), None, "Z")


def ioff(a, c):
    if c == 0:
        return a
    if a.op == "iconst":
        return iconst(a.x + c)
    if a.op in ("iadd", "isub") and a.args[1].op == "iconst":
        return ioff(a.args[0], c + (a.args[1].x if a.op == "iadd" else -a.args[1].x))
    if c > 0:
        return mk("iadd", (a, iconst(c)), None, "Z")
    return mk("isub", (a, iconst(-c)), None, "Z")


def isub(a, b):
    if a.op == b.op == "iconst":
        return iconst(a.x - b.x)
    if is_const(b, 0):
        return a
    if a is b:
        return iconst(0)
    if b.op == "iconst" and a.op in ("iadd", "isub") and a.args[1].op == "iconst":
        c = a.args[1].x if a.op == "iadd" else -a.args[1].x
        return ioff(a.args[0], c - b.x)
    return mk("isub", (a, b), None, "Z")


def ineg(a):
    if a.op == "iconst":
        return iconst(-a.x)
    return mk("ineg", (a,), None, "Z")


def idiv(a, b):
    if a.op == b.op == "iconst" and b.x > 0 and a.x >= 0:
        return iconst(a.x // b.x)
    return mk("idiv", (a, b), None, "Z")


def imod(a, b):
    if a.op == b.op == "iconst" and b.x > 0 and a.x >= 0:
        return iconst(a.x % b.x)
    return mk("imod", (a, b), None, "Z")


def ipow(a, b):
    if a.op == b.op == "iconst" and b.x >= 0 and b.x < 4096:
        return iconst(a.x ** b.x)
    return mk("ipow", (a, b), None, "Z")


def lt(a, b):
    if a is b:
        return FALSE
    if a.op in ("const", "iconst") and b.op == a.op:
        return bconst(a.x < b.x)
    return mk("lt", (a, b), None, "B")


def le(a, b):
    if a is b:
        return TRUE
    if a.op in ("const", "iconst") and b.op == a.op:
        return bconst(a.x <= b.x)
    return mk("le", (a, b), None, "B")


def eq(a, b):
    if a is b:
        return TRUE
    if a.op in ("const", "iconst", "bconst") and b.op == a.op:
        return bconst(a.x == b.x)
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), None, "B")


def not_(a):
    if a.op == "bconst":
        return bconst(not a.x)
    if a.op == "not":
        return a.args[0]
    if a.op == "lt":
        return le(a.args[1], a.args[0])
    if a.op == "le":
        return lt(a.args[1], a.args[0])
    return mk("not", (a,), None, "B")


def and_(a, b):
    if a.op == "bconst":
        return b if a.x else FALSE
    if b.op == "bconst":
        return a if b.x else FALSE
    if a is b:
        return a
    if a is not_(b):
        return FALSE
    return mk("and", (a, b), None, "B")


def or_(a, b):
    if a.op == "bconst":
        return TRUE if a.x else b
    if b.op == "bconst":
        return TRUE if b.x else a
    if a is b:
        return a
    if a is not_(b):
        return TRUE
    return mk("or", (a, b), None, "B")


def parity(c):
    """n when c says n % 2 == 0"""
    if c.op == "eq":
        for m, r in (c.args, c.args[::-1]):
            if m.op == "imod" and m.args[1].op == "iconst" and m.args[1].x == 2 and r.op == "iconst" and r.x == 0:
                return m.args[0]
    return None


def ite(c, a, b):
    if c.op == "bconst":
        return a if c.x else b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    n = parity(c)
    if n is not None and a.op == "const" and b.op == "const" and a.x == -b.x and a.x != 0:
        # the sign of an alternating series
        return mul(a, powi(const(-1), n))
    if a.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    return mk("ite", (c, a, b), None, a.sort)


def _bind(body, v):
    """replace variable v in body by a binder variable of canonical index"""
    idx = body.mb + 1
    return idx, subst(body, {v: mk("bvar", (), idx, v.sort)})


def bsum(n, v, body):
    """sum over v = 0 .. n-1 of body"""
    if n.op == "iconst" and n.x <= 0:
        return ZERO
    if is_const(body, 0):
        return ZERO
    idx, b = _bind(body, v)
    return mk("sum", (n, b), (idx,), "R")


def bprod(n, v, body):
    idx, b = _bind(body, v)
    return mk("prod", (n, b), (idx,), body.sort)


def lam(vs, body):
    """function value; vs list of vars"""
    for v in reversed(vs):
        idx, b = _bind(body, v)
        body = mk("lam", (b,), (idx, v.sort), "F")
    return body


def call(name, args, sort="R"):
    return mk("call", tuple(args), name, sort)


def open_binder(e):
    """(fresh var, body) of a binder node"""
    idx = e.x[0]
    sort = "Z" if e.op in ("sum", "prod") else e.x[1]
    v = fresh("k" if sort == "Z" else "u", sort)
    body = e.args[-1]
    return v, inst(body, idx, v)


def inst(e, idx, v, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(e.id)
    if r is not None:
        return r
    if e.op == "bvar" and e.x == idx:
        r = v
    elif not e.args:
        r = e
    elif e.op in BINDERS and e.x[0] == idx:
        # the same index bound again inside cannot contain our variable in its body
        r = rebuild(e, [inst(a, idx, v, memo) for a in e.args[:-1]] + [e.args[-1]])
    else:
        na = [inst(a, idx, v, memo) for a in e.args]
        r = e if all(x is y for x, y in zip(na, e.args)) else rebuild(e, na)
    memo[e.id] = r
    return r


def rebuild(e, na):
    op = e.op
    f = SMART.get(op)
    if f is not None:
        return f(*na)
    return mk(op, na, e.x, e.sort)


SMART = {
    "add": add, "sub": sub, "neg": neg, "mul": mul, "div": div, "powi": powi, "powf": powf,
    "i2r": i2r, "imul": imul, "iadd": iadd, "isub": isub, "ineg": ineg, "idiv": idiv, "imod": imod, "ipow": ipow,
    "lt": lt, "le": le, "eq": eq, "not": not_, "and": and_, "or": or_, "ite": ite,
}


def free_vars(e):
    if e.fv is None:
        s = set()
        if e.op == "var":
            s.add(e)
        for a in e.args:
            s |= free_vars(a)
        e.fv = frozenset(s)
    return e.fv


def subst(e, m, memo=None):
    """capture-free substitution of free variables"""
    if memo is None:
        memo = {}
    keys = set(m)
    return _subst(e, m, keys, memo)


def _subst(e, m, keys, memo):
    r = memo.get(e.id)
    if r is not None:
        return r
    if e.op == "var":
        r = m.get(e, e)
    elif not e.args or not (free_vars(e) & keys):
        r = e
    elif e.op in BINDERS:
        # reopen so that substituted terms cannot be captured
        v, body = open_binder(e)
        nb = _subst(body, m, keys, {})
        na = [_subst(a, m, keys, memo) for a in e.args[:-1]]
        if e.op == "sum":
            r = bsum(na[0], v, nb)
        elif e.op == "prod":
            r = bprod(na[0], v, nb)
        else:
            r = lam([v], nb)
    else:
        r = rebuild(e, [_subst(a, m, keys, memo) for a in e.args])
    memo[e.id] = r
    return r


def map_calls(e, path, build, memo=None):
    """replace calls of `path` by build(arguments)"""
    if memo is None:
        memo = {}
    r = memo.get(e.id)
    if r is None:
        na = [map_calls(a, path, build, memo) for a in e.args]
        if e.op == "call" and e.x == path:
            r = build(na)
        else:
            r = e if all(x is y for x, y in zip(na, e.args)) else rebuild(e, na)
        memo[e.id] = r
    return r


def nodes(e, seen=None, out=None):
    """all sub-nodes, children first"""
    if seen is None:
        seen, out = set(), []
    stack = [(e, False)]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for a in n.args:
            if a.id not in seen:
                stack.append((a, False))
    return out


def show(e, depth=0):
    if depth > 40:
        return "…"
    s = lambda a: show(a, depth + 1)
    o = e.op
    if o in ("const", "iconst", "bconst"):
        return str(e.x)
    if o == "var":
        return e.x
    if o == "bvar":
        return "#%d" % e.x
    inf = {"add": "+", "sub": "-", "mul": "*", "div": "/", "iadd": "+", "isub": "-", "imul": "*", "idiv": "/", "imod": "%",
           "lt": "<", "le": "<=", "eq": "==", "and": "&&", "or": "||", "powi": "^", "powf": "**", "ipow": "^"}
    if o in inf:
        return "(%s %s %s)" % (s(e.args[0]), inf[o], s(e.args[1]))
    if o == "sum":
        return "(sum #%d<%s. %s)" % (e.x[0], s(e.args[0]), s(e.args[1]))
    if o == "lam":
        return "(fun #%d. %s)" % (e.x[0], s(e.args[0]))
    if o in ("fn", "call"):
        return "%s(%s)" % (e.x, ", ".join(map(s, e.args)))
    if o == "ite":
        return "(if %s then %s else %s)" % tuple(map(s, e.args))
    return "%s[%s](%s)" % (o, e.x if e.x is not None else "", ", ".join(map(s, e.args)))
