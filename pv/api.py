"""C08: model objects; C09: C interface."""
import re
from .core import *
from .engine import Ob
from .symex import StructV, ListV, V, Unsupported

SC = "physics::single_chain::"
_free = {}


def free_fns(ctx):
    k = id(ctx.crate)
    if k not in _free:
        _free[k] = frozenset(f.path for m in ctx.crate.modules.values() if not m.file.endswith(("ex.rs", "py.rs")) for f in m.fns.values())
    return _free[k]


def sort_of(ty):
    t = ty.replace("&", "").replace("mut ", "").replace(" ", "")
    return "R" if t == "f64" else "Z"


def run_opq(ctx, f, args, opq):
    """value of f with the functions in opq kept as symbols"""
    from .core import opaque
    ex = Exec(ctx.crate, lambda g: (lambda ex, g, a, st: opaque(ex, g, a, st)) if g is not f and g.path in opq else None)
    r = ex.run(f, args)
    for k, n in ex.inlined.items():
        USED[k] = USED.get(k, 0) + n
    ctx.last = ex
    return r


def init_of(ctx):
    """{struct path: init function} of the chain models"""
    out = {}
    for mn, m in sorted(ctx.crate.modules.items()):
        if not mn.startswith(SC) or m.file.endswith(("ex.rs", "py.rs")):
            continue
        for t, d in m.impls.items():
            if "init" in d and t in m.structs:
                out[mn + "::" + t] = d["init"]
    return out


def build(ctx, f, opq):
    A = ctx.args_of(f.path)
    r = run_opq(ctx, f, [V(a, "f64" if a.sort == "R" else p["ty"].replace("&", "").strip()) for a, p in zip(A, f.params)], opq)
    return A, r


def rust_args(fn, i0=0):
    from .harness import arg_text
    return ", ".join(arg_text(p["ty"], i + i0) for i, p in enumerate(fn.params))


def c08(ctx):
    """every object reached from a model's constructor answers with its own parameters"""
    obs = []
    free = free_fns(ctx)
    inits = init_of(ctx)
    built, inner = {}, set()
    for k, f in inits.items():
        try:
            built[k] = build(ctx, f, free)
        except (Unsupported, LostAnchor) as e:
            built[k] = e
            continue

        def walk(v):
            for x in v.fields.values():
                if isinstance(x, StructV):
                    inner.add(x.path)
                    walk(x)
        walk(built[k][1])
    # constructors whose object is reached from no other: the models; plus those that could not be followed
    for k in sorted(inits):
        if isinstance(built[k], Exception):
            e = built[k]

            def bad(e=e):
                raise e
            obs.append(Ob("%s.init" % k.replace(SC, ""), k + "::init", "the constructor can be followed", [bad]))
            continue
        if k in inner:
            continue
        A, root = built[k]
        f = inits[k]
        acc0 = "polymers::%s::init(%s)" % (k, rust_args(f))
        stack = [(root, [], k)]
        while stack:
            v, path, want = stack.pop()
            object_obs(ctx, obs, k, f, A, v, path, acc0, free)
            for n, x in v.fields.items():
                if isinstance(x, StructV):
                    stack.append((x, path + [n], x.path))
    constitutive_obs(ctx, obs)
    return obs


def constitutive_obs(ctx, obs):
    """the constitutive models keep the parameters they were made with"""
    from . import constitutive as c
    for path, pub in ((c.H, c.PUB_H), (c.D, c.PUB_D)):
        if path not in ctx.crate.modules:
            continue
        mod = ctx.crate.modules[path]
        f = c.member(ctx, path, "init")
        sd = mod.structs.get("BucheSilberstein")
        A = [var(n, sort_of(p["ty"])) for n, p in zip(f.param_names(), f.params)]
        acc = "polymers::%s::BucheSilberstein::init(%s)" % (pub, rust_args(f))
        for m in (2, 3):
            B = [iconst(m) if a.x == "method" else a for a in A]

            def build_(B=B, f=f):
                return c.run(ctx, lambda ex: ex.run(f, [V(b, "f64" if b.sort == "R" else p["ty"].replace("&", "").strip()) for b, p in zip(B, f.params)]))
            for a in A:
                if a.x == "method" or not field_pub(sd, a.x):
                    continue

                def alt(a=a, build_=build_):
                    return build_().fields[a.x].e, a
                key = "obj:%s.%s" % (pub, a.x)
                obs.append(Ob("%s.method%d.%s" % (pub, m, a.x), path + "::BucheSilberstein::init", "the object keeps the %s it was made with" % a.x.replace("_", " "), [alt],
                              claim=(call(key, B, a.sort), a), snippets={key: "(%s.%s) as f64" % (acc, a.x)}))


def object_obs(ctx, obs, k, f, A, v, path, acc0, free):
    mn, t = v.path.rsplit("::", 1)
    m = ctx.crate.modules[mn]
    label = ".".join([k.replace(SC, "")] + path)
    byname = {a.x: a for a in A}
    # the object sits where its type says: field path and module path agree
    root_mod = k.rsplit("::", 1)[0]
    where = "::".join([root_mod] + path)
    if where != mn:
        obs.append(Ob(label, v.path, "the object found at %s is the one of that name" % ".".join(path),
                      [lambda: (iconst(0), iconst(1))]))
        return
    sd = m.structs.get(t)
    for n, x in v.fields.items():
        if isinstance(x, StructV) or not isinstance(x, V):
            continue
        if n in byname:
            want = byname[n]
        elif n == "nondimensional_persistance_length":
            want = div(byname["persistance_length"], mul(i2r(byname["number_of_links"]), byname["link_length"]))
        else:
            continue
        public = field_pub(sd, n)
        key = "obj:" + ".".join([label, n])
        expr = "(%s.%s) as f64" % (".".join([acc0] + path), n)

        def alt(x=x, want=want):
            return x.e, want
        obs.append(Ob(label + "." + n, f.path, "the object keeps the %s it was made with" % n.replace("_", " "), [alt],
                      claim=(call(key, A, want.sort), want) if public else None, snippets={key: expr} if public else None))
    for name, g in sorted(m.impls.get(t, {}).items()):
        if name == "init" or not g.params or g.params[0]["k"] != "self" or not g.pub:
            continue
        free_g = m.fns.get(name)
        if free_g is None:
            continue
        names = [p.get("name") for p in g.params[1:]]
        B = [var(n, sort_of(p["ty"])) for n, p in zip(names, g.params[1:])]
        P = dict(byname)
        P.update({b.x: b for b in B})
        want = []
        own = True
        for n in free_g.param_names():
            if n in P:
                want.append(P[n])
            elif n in v.fields and isinstance(v.fields[n], V):
                want.append(v.fields[n].e)
                own = False
            else:
                want = None
                break
        if want is None:
            continue

        def alt1(g=g, v=v, B=B, want=want, free_g=free_g):
            r = run_opq(ctx, g, [v] + [V(b, "f64" if b.sort == "R" else p["ty"].replace("&", "").strip()) for b, p in zip(B, g.params[1:])], free)
            return r.e, call(free_g.path, want)

        def alt2(g=g, v=v, B=B, want=want, free_g=free_g):
            r = run_opq(ctx, g, [v] + [V(b, "f64" if b.sort == "R" else p["ty"].replace("&", "").strip()) for b, p in zip(B, g.params[1:])], MATH_BOUNDARY)
            return r.e, ctx.code(free_g.path, want)
        key = "obj:" + label + "." + name
        from .harness import arg_text
        margs = [arg_text(p["ty"], len(A) + i) for i, p in enumerate(g.params[1:])]
        claim = sn = None
        if None not in margs and own:
            sn = {key: "%s.%s(%s)" % (".".join([acc0] + path), name, ", ".join(margs))}
            claim = (call(key, list(A) + B), call(free_g.path, want))
        obs.append(Ob(label + "." + name, g.path, "the method returns the model's function at the object's own parameters", [alt1, alt2],
                      rhs_fns=[free_g.path], claim=claim, snippets=sn))


def field_pub(sd, n):
    for fl in (sd or {}).get("fields", []):
        if fl[0] == n:
            return bool(fl[2])
    return False


# --- C09 ----------------------------------------------------------------------------------------

class CExec(Exec):
    """reads the bodies of C functions: a raw pointer parameter stands for one valid value of the pointed-to type"""

    def __init__(self, *a, **k):
        Exec.__init__(self, *a, **k)
        self.raw = []

    def ext_hook(self, p, args, st, fr):
        if p[-1] in ("from_raw_parts", "from_ref") and args and isinstance(args[0], V):
            self.raw.append(args[1].e if len(args) > 1 else iconst(1))
            return ListV([args[0]])
        return None

    def x_un(self, e, scope, st, fr, hint):
        return Exec.x_un(self, e, scope, st, fr, hint)


def norm_ty(t):
    t = re.sub(r"\*\s*(const|mut)\b", "", t).replace("&", "").replace("mut ", "").replace(" ", "")
    return re.sub(r";[\w:]+\]", "]", t)


def read_c(ctx, f, A, opq):
    ex = CExec(ctx.crate, lambda g: (lambda ex, g, a, st: opaque(ex, g, a, st)) if g is not f and g.path in opq else None)
    r = ex.run(f, [V(a, "f64" if a.sort == "R" else norm_ty(p["ty"])) for a, p in zip(A, f.params)])
    for k, n in ex.inlined.items():
        USED[k] = USED.get(k, 0) + n
    return r, ex


def c09(ctx):
    obs = []
    free = free_fns(ctx)
    for mn, m in sorted(ctx.crate.modules.items()):
        if not m.file.endswith("ex.rs"):
            continue
        par = m.parent
        prefix = "_".join(par.path) + "_"
        seen = set()
        for name, f in sorted(m.fns.items()):
            if not f.node["sig"].get("abi"):
                continue
            if not name.startswith(prefix) or name[len(prefix):] not in par.fns:
                obs.append(Ob("c." + name, f.path, "the exported name is that of a function of the model", [lambda: (iconst(0), iconst(1))]))
                continue
            g = par.fns[name[len(prefix):]]
            seen.add(g.name)
            A = [var(p.get("name"), sort_of(p["ty"])) for p in f.params]

            def tys(h):
                return [norm_ty(p["ty"]) for p in h.params]
            same_ty = tys(f) == tys(g)
            same_names = [n.replace("raw_", "", 1) for n in f.param_names()] == g.param_names()

            def alt1(f=f, g=g, A=A, same=same_ty):
                if not same:
                    return iconst(0), iconst(1)
                return read_c(ctx, f, A, free)[0].e, call(g.path, A)

            def alt2(f=f, g=g, A=A, same=same_ty):
                if not same:
                    return iconst(0), iconst(1)
                return ctx.code(f.path, A), ctx.code(g.path, A)
            exported = any("no_mangle" in a or "export_name" in a for a in f.node.get("attrs", []))
            scalar = all(arg_ok(p) for p in f.params)
            obs.append(Ob("c." + name, f.path, "the C function returns the model's function of the same name at the same arguments, by position",
                          [alt1, alt2] if scalar else [alt1], rhs_fns=[g.path], claim=(call(f.path, A), call(g.path, A)) if scalar else None, opts={"free": True}))
            obs.append(Ob("c." + name + ".symbol", f.path, "the symbol is exported under its own name, with the C calling convention and the parameter order of the model's function",
                          [lambda e=exported and f.pub and same_names and same_ty: (iconst(1 if e else 0), iconst(1))]))
            for i, p in enumerate(f.params):
                if "*" in p["ty"]:
                    def mem(f=f, A=A):
                        ns = read_c(ctx, f, A, free)[1].raw
                        bad = [n for n in ns if n is not iconst(1) and n is not iconst(0)]
                        return iconst(len(bad)), iconst(0)
                    obs.append(Ob("c." + name + ".memory", f.path, "the C function claims no memory beyond the one value each pointer argument points to", [mem]))
                    break
        for g in par.fns.values():
            if g.pub and g.name not in seen and par.name().startswith(SC) and all(arg_ok(p) for p in g.params) and (g.ret or "").replace(" ", "") == "f64":
                obs.append(Ob("c." + prefix + g.name, g.path, "the function is exported to C", [lambda: (iconst(0), iconst(1))]))
    return obs


def arg_ok(p):
    from .harness import arg_text
    return arg_text(p.get("ty", ""), 0) is not None
