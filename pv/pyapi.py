"""C10: the Python classes answer with the library's functions (py.rs modules, pyo3)."""
import re
from .core import *
from .engine import Ob
from .symex import Exec, StructV, ListV, SeqV, TupV, V, OpaqueV, ExtV, UNIT, Unsupported, INT_RANGE
from .api import free_fns, sort_of, field_pub

IDENTITY = {"as_array", "into_pyarray", "to_dyn", "readonly", "to_pyarray", "view", "into_dyn", "to_owned", "as_ref", "into_owned"}


class PyMod:
    """a Python module under construction"""

    def __init__(self, name):
        self.name, self.subs, self.classes = name, {}, {}


class Str:
    def __init__(self, s):
        self.s = s


class PyExec(Exec):
    """reads pyo3 code: numpy arrays are sequences, mapv acts element by element, from_vec keeps the elements"""

    def x_str(self, e, scope, st, fr, hint):
        return Str(e["v"])

    def x_try(self, e, scope, st, fr, hint):
        return self.expr(e["e"], scope, st, fr, hint)

    def x_call(self, e, scope, st, fr, hint):
        if e["f"].get("path") in (["Ok"], ["Some"]) and len(e["args"]) == 1:
            return self.expr(e["args"][0], scope, st, fr)
        return Exec.x_call(self, e, scope, st, fr, hint)

    def ext_hook(self, p, args, st, fr):
        args = [self.rv(a, st) for a in args]
        if len(p) >= 2 and p[-2] in ("PyArray", "PyArrayDyn", "PyArray1") and p[-1] in ("from_vec", "from_iter", "from_owned_array", "from_array"):
            return args[1]
        if len(p) >= 2 and p[-2] == "PyModule" and p[-1] == "new":
            if not isinstance(args[1], Str):
                raise Unsupported("module name")
            return PyMod(args[1].s)
        return None

    def seq_method(self, v, m, args, st, fr, e):
        if m in IDENTITY:
            return v
        if m in ("mapv", "mapv_into"):
            m = "map"
        return Exec.seq_method(self, v, m, args, st, fr, e)

    def method(self, v, m, args, st, fr, e=None):
        v = self.rv(v, st)
        if isinstance(v, PyMod):
            if st.alive is not TRUE:
                raise Unsupported("conditional registration")
            if m == "add_submodule":
                c = self.rv(args[0], st)
                v.subs[c.name] = c
                return UNIT
            if m == "add_class":
                t = re.sub(r"[<>\s]", "", (e or {}).get("turbofish") or "").lstrip(":")
                r = self.crate.resolve(fr.module, t.split("::"), ns="type")
                if r is None or r[0] != "struct":
                    raise Unsupported("class " + t)
                sd = r[1][0].structs[r[1][1]]
                v.classes[py_name(sd["attrs"], "pyclass", r[1][1])] = (r[1][0].name(), r[1][1])
                return UNIT
            raise Unsupported("module method " + m)
        if isinstance(v, OpaqueV) and m in ("clone", "to_owned"):
            return v
        return Exec.method(self, v, m, args, st, fr, e)


def py_name(attrs, kind, default):
    """name given to an item in Python; raises when an attribute is not understood"""
    name = default
    for a in attrs:
        t = a.replace(" ", "")
        if t.startswith(("doc", "derive", "allow", "cfg", "inline", "must_use")):
            continue
        m = re.fullmatch(r"(\w+)(?:\((.*)\))?", t)
        if not m or m.group(1) not in (kind, "pyo3", "new", "pyclass"):
            raise Unsupported("attribute " + a)
        for part in filter(None, (m.group(2) or "").split(",")):
            k = re.fullmatch(r'name="(\w+)"', part)
            if k:
                name = k.group(1)
            elif part not in ("get", "set", "frozen") and not part.startswith("text_signature"):
                raise Unsupported("attribute " + a)
    return name


def tokens(path, n):
    """a function whose result is n things the reading does not look into"""
    def h(ex, f, args, st):
        ts = [term_of(a, ex, st) for a in args]
        if None in ts:
            raise Unsupported("argument of " + path)
        return [V(call("%s#%d" % (path, i), ts), "f64") for i in range(n)]
    return h


def boundary_for(ctx, free, keep):
    def pairs(path, wrap, n):
        h = tokens(path, n)
        return lambda ex, f, a, st: wrap(h(ex, f, a, st))
    out = {}
    for m in ctx.crate.modules.values():
        if not m.name().startswith("constitutive::") or m.file.endswith(("ex.rs", "py.rs")):
            continue
        for f in m.fns.values():
            r = (f.ret or "").replace(" ", "")
            if r.startswith("("):
                out[f.path] = pairs(f.path, TupV, depth0(r[1:-1]))
            elif re.fullmatch(r"\[f64;\d+\]", r):
                out[f.path] = pairs(f.path, ListV, int(r[5:-1]))

    def boundary(g):
        if g is keep:
            return None
        if g.path in out:
            return out[g.path]
        if g.path in free:
            return lambda ex, g, a, st: opaque(ex, g, a, st)
        return None
    return boundary


def depth0(t):
    n = d = 0
    for c in t:
        d += c in "([<"
        d -= c in ")]>"
        n += c == "," and d == 0
    return n + 1 if t else 0


def read_py(ctx, f, args, free):
    ex = PyExec(ctx.crate, boundary_for(ctx, free, f))
    r = ex.run(f, args)
    for k, n in ex.inlined.items():
        USED[k] = USED.get(k, 0) + n
    return r


def typed(p, e):
    return V(e, "f64" if e.sort == "R" else p["ty"].replace("&", "").strip())


def is_array(p):
    return "PyReadonlyArray" in p.get("ty", "") or "PyArray" in p.get("ty", "")


def is_py(p):
    return p.get("ty", "").replace(" ", "").startswith("Python<")


def c10(ctx):
    obs = []
    free = free_fns(ctx)
    crate = ctx.crate
    pys = {mn: m for mn, m in sorted(crate.modules.items()) if m.file.endswith("py.rs") and m.path}
    tree, why = None, "no entry function"
    root = pys.get("py")
    entry = [f for f in (root.fns.values() if root else ()) if any(a.replace(" ", "").startswith("pymodule") for a in f.node.get("attrs", []))]
    if entry:
        try:
            tree = PyMod(py_name([a for a in entry[0].node["attrs"] if not a.startswith("pymodule")], "pymodule", entry[0].name))
            PyExec(crate).run(entry[0], [OpaqueV("py") if is_py(p) else tree for p in entry[0].params])
        except Unsupported as e:
            tree, why = None, str(e)
    where = {}      # (python module of the crate, struct) -> dotted path in Python

    def walk(t, path):
        for n, c in t.classes.items():
            where.setdefault(c, []).append(path + [n])
        for n, s in t.subs.items():
            walk(s, path + [n])
    if tree is not None:
        walk(tree, [tree.name])

    def bad_tree():
        raise Unsupported("module registration: " + why)

    for mn, m in pys.items():
        par = m.parent
        for t, sd in sorted(m.structs.items()):
            if not any(a.replace(" ", "").startswith("pyclass") for a in sd.get("attrs", [])):
                continue
            label = par.name().replace("physics::single_chain::", "") + "." + t
            class_obs(ctx, obs, m, par, t, sd, label, where, tree, bad_tree, free)
    # every class of the library that has parameters is there in Python
    for mn, m in sorted(crate.modules.items()):
        if m.file.endswith(("ex.rs", "py.rs")) or not m.path:
            continue
        for t, d in sorted(m.impls.items()):
            if "init" in d and t in m.structs and m.structs[t].get("pub", True) and "py" in m.mods and t not in m.mods["py"].structs:
                obs.append(Ob("py.%s.%s" % (mn, t), d["init"].path, "the class is available in Python", [lambda: (iconst(0), iconst(1))]))
    return obs


def class_obs(ctx, obs, m, par, t, sd, label, where, tree, bad_tree, free):
    crate = ctx.crate
    rs = par.structs.get(t)
    rimpl = par.impls.get(t, {})
    pimpl = m.impls.get(t, {})
    ppath = m.name() + "::" + t
    dotted = where.get((m.name(), t), [])

    def fail(name, fn, clause, alts=None, claim=None, sn=None):
        obs.append(Ob(name, fn, clause, alts or [lambda: (iconst(0), iconst(1))], claim=claim, snippets=sn))
    if rs is None or "init" not in rimpl:
        return fail("py." + label, ppath, "the class is one of the library")
    R = rimpl["init"]
    ctors = [f for f in pimpl.values() if any(a.replace(" ", "") == "new" for a in f.node.get("attrs", []))]
    if len(ctors) != 1:
        return fail("py." + label + ".new", ppath, "the class has one constructor")
    P = ctors[0]
    # the class is found in Python under the path of the Rust class
    def placed():
        if tree is None:
            bad_tree()
        ok = any(r is not None and r[0] == "struct" and r[1][0] is par and r[1][1] == t
                 for r in [crate.resolve(crate.root, d[1:], ns="type") for d in dotted])
        return iconst(1 if ok else 0), iconst(1)
    want = ".".join(["polymers"] + par.path + [t])
    for d in dotted:
        if crate.resolve(crate.root, d[1:], ns="type") == ("struct", (par, t)):
            want = ".".join(d)
    if par.name().startswith("constitutive::") and not dotted:
        want = ".".join(["polymers"] + par.path[:-1] + [t])
    obs.append(Ob("py." + label + ".path", m.name() + "::register_module", "the class is found in Python under the path it has in the library", [placed],
                  claim=(call("py:path:" + label, [], "Z"), iconst(1)), opts={"real_n": 2}, snippets={"py:path:" + label: "1 if %s else 0" % want}))
    A = [var(n, sort_of(p["ty"])) for n, p in zip(R.param_names(), R.params)]
    names = R.param_names()
    dead = [1]

    def ctor_ok():
        for a in P.node.get("attrs", []):
            if a.replace(" ", "").startswith("pyo3"):
                raise Unsupported("attribute " + a)
        ok = P.param_names() == names and [p["ty"].replace(" ", "") for p in P.params] == [p["ty"].replace(" ", "") for p in R.params]
        return iconst(1 if ok else 0), iconst(1)
    cargs = ", ".join("int(a[%d])" % i if a.sort == "Z" else "a[%d]" % i for i, a in enumerate(A))
    obj = "%s(%s)" % (want, cargs)
    kwargs = ", ".join("%s=%s" % (a.x, "int(a[%d])" % i if a.sort == "Z" else "a[%d]" % i) for i, a in enumerate(A))
    obs.append(Ob("py." + label + ".new", P.path, "the constructor takes the parameters of the library's constructor, by position and by name", [ctor_ok]))
    if P.param_names() != names:
        return

    def build(f):
        return read_py(ctx, f, [typed(p, a) for p, a in zip(R.params, A)], free)
    sizes = {"ranges": {"method": (2, 3), "nondimensional_critical_extension": (0.8, 1.6), "swelling_ratio": (1.0, 2.0)}}
    if par.name().startswith("constitutive::"):
        sizes.update(real_n=4, max_envs=4, point=True)      # each call integrates over the whole grid
    # attributes
    pget = {}
    for fl in sd.get("fields", []):
        if any(a.replace(" ", "").startswith("pyo3(") for a in (fl[3] if len(fl) > 3 else [])):
            try:
                pget[py_name(fl[3], "pyo3", fl[0])] = fl
            except Unsupported as e:
                pget[fl[0]] = fl
    for fl in rs.get("fields", []):
        n = fl[0]
        if not fl[2]:
            continue
        if n not in pget:
            if n in [x[0] for x in sd.get("fields", [])] or n in names:
                key = "py:has:%s.%s" % (label, n)
                fail("py.%s.%s" % (label, n), ppath, "the attribute can be read in Python", claim=(call(key, A, "Z"), iconst(1)) if True else None,
                     sn={key: "1 if hasattr(%s, %r) else 0" % (obj, n)})
            continue
        pn = pget[n][0]

        def alt(n=n, pn=pn):
            r, p = build(R).fields[n], build(P).fields[pn]
            if isinstance(r, StructV) != isinstance(p, StructV):
                return iconst(0), iconst(1)
            if isinstance(r, StructV):
                return same_object(p, r)
            return p.e, r.e
        if n in names or fl[1].replace(" ", "") in ("f64",) or fl[1].replace(" ", "") in INT_RANGE:
            key = "py:%s.%s" % (label, n)
            a = [x for x in A if x.x == n]
            obs.append(Ob("py.%s.%s" % (label, n), P.path, "the attribute has the value of the library's object", [alt],
                          claim=(call(key, A, a[0].sort), a[0]) if a else None, snippets={key: "%s.%s" % (obj, n)} if a else None, opts=sizes))
        else:
            key = "py:mismatch:%s.%s" % (label, n)
            obs.append(Ob("py.%s.%s" % (label, n), P.path, "the attribute is the corresponding object made with the same parameters", [alt], opts=sizes,
                          claim=(call(key, A), ZERO), snippets={key: "mismatch(%s.%s, dict(%s))" % (obj, n, kwargs)}))
    # methods
    done = set()
    bynames = {}
    for f in pimpl.values():
        if f is P:
            continue
        try:
            bynames[py_name(f.node.get("attrs", []), "pyo3", f.name)] = f
        except Unsupported as e:
            def bad(e=e):
                raise e
            obs.append(Ob("py.%s.%s" % (label, f.name), f.path, "the method can be read", [bad]))
            bynames[f.name] = None
    for n, g in sorted(rimpl.items()):
        if n == "init" or not g.pub or not g.params or g.params[0]["k"] != "self":
            continue
        if n not in bynames:
            key = "py:has:%s.%s" % (label, n)
            fail("py.%s.%s" % (label, n), ppath, "the method is available in Python", claim=(call(key, A, "Z"), iconst(1)),
                 sn={key: "1 if hasattr(%s, %r) else 0" % (obj, n)})
            continue
        f = bynames[n]
        if f is not None:
            method_obs(ctx, obs, par, t, label, f, g, A, names, build, R, P, obj, free, sizes)
            done.add(n)
    for n, f in sorted(bynames.items()):
        if n not in rimpl and f is not None and f.name in par.fns:
            fail("py.%s.%s" % (label, n), f.path, "the method has the name of the library's")


def same_object(p, r):
    """the Python object p holds what the library's object r holds, attribute by attribute"""
    acc = []

    def go(p, r, path):
        pm, pt = p.path.rsplit("::", 1)
        if pm.rsplit("::", 1)[0] + "::" + pt != r.path or not pm.endswith("::py"):
            acc.append((iconst(0), iconst(1)))
            return
        for n, x in p.fields.items():
            y = r.fields.get(n)
            if isinstance(x, StructV) and isinstance(y, StructV):
                go(x, y, path + [n])
            elif isinstance(x, V) and isinstance(y, V):
                if x.e is not y.e:
                    acc.append((x.e, y.e))
            else:
                acc.append((iconst(0), iconst(1)))
    go(p, r, [])
    return acc[0] if acc else (iconst(1), iconst(1))


def method_obs(ctx, obs, par, t, label, f, g, A, names, build, R, P, obj, free, sizes):
    fp = [p for p in f.params[1:] if not is_py(p)]
    gp = g.params[1:]
    history = "Vec" in (g.ret or "") or "[" in (g.ret or "")
    base = "py.%s.%s" % (label, f.name)
    gn = [p.get("name") for p in gp]
    fnames = [p.get("name") for p in fp]
    arrays = [is_array(p) for p in fp]
    if history:
        return history_obs(ctx, obs, par, t, label, f, A, R, P, build, obj, free, base, sizes)

    def shape_ok():
        ok = fnames == gn and all(a or p["ty"].replace(" ", "") == q["ty"].replace(" ", "").replace("&", "") for a, p, q in zip(arrays, fp, gp))
        return iconst(1 if ok else 0), iconst(1)
    obs.append(Ob(base + ".arguments", f.path, "the method takes the arguments of the library's method, by position and by name", [shape_ok]))
    if len(fp) != len(gp):
        return
    B = [var(n, sort_of(q["ty"])) for n, q in zip(gn, gp)]
    n, k0 = var("number_of_elements", "Z"), var("index_of_element", "Z")
    if sum(arrays) == 0:
        arrays_needed = False
    else:
        arrays_needed = True

    def alt(opq):
        self_ = build(P)
        vs = [self_]
        it = iter(zip(fp, B, arrays))
        for p in f.params[1:]:
            if is_py(p):
                vs.append(OpaqueV("py"))
                continue
            p, b, arr = next(it)
            if arr:
                vs.append(SeqV(n, lambda k, b=b: V(b if k is k0 else call("element:" + b.x, [k]), "f64")))
            else:
                vs.append(typed(p, b))
        r = read_py(ctx, f, vs, opq)
        if arrays_needed:
            if not isinstance(r, SeqV):
                raise Unsupported("result of " + f.path)
            if r.n is not n:
                return iconst(0), iconst(1)
            r = r.f(k0)
        rr = read_py(ctx, g, [build(R)] + [typed(q, b) for q, b in zip(gp, B)], opq)
        return r.e, rr.e
    key = "py:%s.%s" % (label, f.name)
    nA = len(A)
    parts = []
    for i, (b, arr) in enumerate(zip(B, arrays)):
        v = "a[%d]" % (nA + i)
        parts.append("np.array([[%s*0.75, %s*0.5], [%s, %s*0.875]])" % (v, v, v, v) if arr else ("int(%s)" % v if b.sort == "Z" else v))
    call_ = "%s.%s(%s)" % (obj, f.name, ", ".join(parts))
    sn = {key: call_ + ("[1, 0]" if arrays_needed else "")}
    fr = par.fns.get(f.name)
    lib = None
    rkey = "obj:%s.%s" % (label, f.name)
    from .harness import arg_text
    ra = [arg_text(p["ty"], i) for i, p in enumerate(R.params)]
    rb = [arg_text(p["ty"], nA + i) for i, p in enumerate(gp)]
    if None not in ra + rb:
        cls = class_path(ctx, par, t)
        sn[rkey] = "%s::init(%s).%s(%s)" % (cls, ", ".join(ra), g.name, ", ".join(rb))
        lib = (call(key, A + B), call(rkey, A + B))
    obs.append(Ob(base, f.path, "every element of the result is the library's method at the same element and the same parameters",
                  [lambda: alt(free), lambda: alt(MATH_BOUNDARY)], claim=lib, snippets=sn if lib else None, opts=dict(sizes, free=True)))


def class_path(ctx, par, t):
    """path under which users of the Rust library find the class"""
    if ctx.crate.resolve(ctx.crate.root, par.path[:-1] + [t], ns="type") == ("struct", (par, t)):
        return "polymers::%s::%s" % ("::".join(par.path[:-1]), t)
    return "polymers::%s::%s" % (par.name(), t)


def history_obs(ctx, obs, par, t, label, f, A, R, P, build, obj, free, base, sizes):
    """damage: one result per stretch, with the largest stretch so far"""
    S = [var("stretch_%d" % i) for i in range(3)]
    u = par.fns.get("uniaxial_tension")
    from .harness import arg_text
    ra = ", ".join(arg_text(p["ty"], i) for i, p in enumerate(R.params))
    sa = ", ".join("a[%d]" % (len(A) + i) for i in range(3))
    opts = dict(sizes, free=True, ranges=dict(sizes["ranges"], stretch_0=(1.0, 2.5), stretch_1=(1.0, 2.5), stretch_2=(1.0, 2.5)))
    for out in (0, 1):
        for i in range(3):
            def alt(i=i, out=out):
                self_ = build(P)
                r = read_py(ctx, f, [self_] + [OpaqueV("py") if is_py(p) else ListV([V(s, "f64") for s in S]) for p in f.params[1:]], free)
                if not isinstance(r, TupV) or len(r.items) != 2 or not isinstance(r.items[out], ListV) or len(r.items[out].items) != 3:
                    raise Unsupported("result of " + f.path)
                x = r.items[out].items[i]
                mx = ONE
                for s in S[:i + 1]:
                    mx = ite(lt(mx, s), s, mx)
                F = self_.fields
                want = []
                for n in u.param_names():
                    if n == "stretch":
                        want.append(V(S[i], "f64"))
                    elif n == "maximum_previous_stretch":
                        want.append(V(mx, "f64"))
                    else:
                        want.append(F[n])
                rr = call("%s#%d" % (u.path, out), [w.e for w in want])
                return x.e, rr
            obs.append(Ob("%s.%d.%d" % (base, out, i), f.path,
                          "element %d of %s for a history of three stretches: the library's function at that stretch and the largest one so far" % (i, ("the stress", "the intact fraction")[out]),
                          [alt], opts=opts, claim=(call("py:%s.%d.%d" % (base, out, i), A + S), call("obj:%s.%d.%d" % (base, out, i), A + S)), snippets={
                              "py:%s.%d.%d" % (base, out, i): "%s.%s(np.array([%s]))[%d][%d]" % (obj, f.name, sa, out, i),
                              "obj:%s.%d.%d" % (base, out, i): "%s::init(%s).uniaxial_tension::<3>(&[%s])[%d][%d]" % (class_path(ctx, par, t), ra, sa, i, out)}))


def end_to_end(ctx, obs, res, hz, tier, seed):
    """the built Python module against the compiled library, at a few points per obligation: the reading of pyo3 and numpy is checked too"""
    from . import main, sample
    from .harness import Panic
    n, bad, pts = 0, [], 0
    for ob, r in zip(obs, res):
        if ob.claim is None or r.status != "proved" or ob.claim[0].x not in hz.index:
            continue
        k, env, log = main.real_search(ob, hz, seed, 2 if tier == "quick" else 12)
        pts += k
        n += 1
        if env is None and k == 0:
            vs = set(free_vars(ob.claim[0])) | set(free_vars(ob.claim[1]))
            for e in sample.points(vs, sample.requires_of(vs), 1, "e2e/%s" % ob.name, ob.opts):
                e = main.to_f64(e)
                a, b, lg = main.real_values(ob, e, hz)
                if b is not None and [c for c in lg if c["function"].startswith("py:") and c["returned"] == "panic"]:
                    env, log = e, lg
        if env is not None:
            bad.append((r.name, {"property": "C10", "obligation": r.name, "function": r.fn, "clause": r.clause, "input": {k: str(v) for k, v in env.items()}, "real code": log}, True))
    return {"violations": bad, "coverage": {"python_calls_compared": pts, "obligations_compared": n, "python_module": "built" if hz.pyexe else hz.pyerr}}
