"""Entry point of the checks: python3-vt -m pv check C01 | replay FILE | setup"""
import json
import os
import random
import sys
import threading
import time
import traceback
from collections import Counter
from mpmath import mpf
from .ir import *
from .crate import VERIF, WORK, LostAnchor
from .num import Ev, Undefined, evaluate
from . import engine, sample, harness

EVID = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(WORK, "replay")
REPO = os.environ.get("PV_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.json")

BASE_ASSUMPTIONS = [
    "f64 arithmetic is read as exact real arithmetic; rounding, overflow to infinity and NaN are outside these obligations",
    "the source-to-formula extractor (extract/, pv/crate.py, pv/symex.py, pv/ir.py) is trusted; every run compares extracted formulas with the compiled code at sample points",
    "parameters are physical: positive link length, stiffness, energy, temperature and mass; 1 <= number of links <= 255",
]
TRUSTED = ["Lean 4 kernel and Mathlib (axioms propext, Classical.choice, Quot.sound)", "lean/PV*.lean is compiled and checked on every run, no axioms of its own",
           "syn parser and rsdump (extract/)", "symbolic reader pv/symex.py and printer pv/lean.py (translation of the Rust subset to Lean terms)"]


class RealEv(Ev):
    """evaluates a claim with the real functions in place of the call symbols"""

    def __init__(self, env, hz):
        Ev.__init__(self, env)
        self.hz = hz
        self.log = []

    def _ev(self, e):
        if e.op == "call" and e.x in self.hz.index:
            xs = [self.ev(a) for a in e.args]
            r = self.hz.call(e.x, xs)
            self.log.append({"function": e.x, "arguments": [float(x) for x in xs], "returned": r if isinstance(r, float) else repr(r)})
            if r is None or isinstance(r, harness.Panic):
                raise Undefined("no value")
            if r != r:
                raise Undefined("NaN")
            if e.sort == "Z":
                return int(r)
            if r in (float("inf"), float("-inf")):
                raise Undefined("infinite")
            return mpf(r)
        if e.op == "call":
            raise Undefined("not replayable: " + e.x)
        if e.op == "deriv":
            return self.derivative(e.args[0], e.x)
        return Ev._ev(self, e)

    def derivative(self, body, name):
        """central differences with Richardson extrapolation; undefined where two step sizes disagree"""
        x0 = self.env[name]

        def at(x):
            ev = RealEv(dict(self.env, **{name: x}), self.hz)
            return ev.ev(body)

        def rich(h):
            d1 = (at(x0 + h) - at(x0 - h)) / (2 * h)
            d2 = (at(x0 + h / 2) - at(x0 - h / 2)) / h
            return (4 * d2 - d1) / 3
        best = None
        for rel in (mpf("1e-2"), mpf("2e-3"), mpf("4e-4")):
            h = abs(x0) * rel
            a, b = rich(h), rich(h * mpf("0.37"))
            err = abs(a - b)
            if best is None or err < best[0]:
                best = (err, b)
            if err <= mpf("1e-6") * abs(b):
                break
        self.log.append({"function": "derivative by %s of %s" % (name, show(body)[:80]), "arguments": [float(x0)], "returned": float(best[1])})
        if best[0] > mpf("1e-5") * abs(best[1]):
            raise Undefined("the difference quotient does not settle")
        return best[1]


def real_values(ob, env, hz):
    """(lhs, rhs, log) of the claim on the real code; values None when undefined"""
    out = []
    log = []
    for side in ob.claim:
        ev = RealEv(env, hz)
        try:
            out.append(ev.ev(side))
        except (Undefined, ZeroDivisionError, OverflowError, ValueError, TypeError):
            out.append(None)
        log += ev.log
    return out[0], out[1], log


def reldiff(a, b):
    if a is None or b is None:
        return mpf(0) if a is None and b is None else mpf("inf")
    return abs(a - b) / max(abs(a), abs(b), mpf(10) ** -12)


def claim_functions(ob):
    fs = []
    for side in ob.claim or ():
        for n in nodes(side):
            if n.op == "call":
                fs.append(n.x)
    return fs


def to_f64(env):
    return {k: (mpf(float(v)) if isinstance(v, mpf) else v) for k, v in env.items()}


def real_search(ob, hz, seed, n, reqs=None):
    """bounded search of a disagreement on the real code; returns (points compared, failing env or None, log)"""
    vs = set()
    for s in ob.claim:
        vs |= set(free_vars(s))
    reqs = reqs if reqs is not None else (ob.requires if ob.requires is not None else sample.requires_of(vs))
    k = 0
    n = min(n, ob.opts.get("real_n", n))
    pts = sample.points(vs, reqs, n // 2, "%s/%s/real" % (ob.name, seed), ob.opts)
    pts += sample.points(vs, reqs, n - n // 2, "%s/%s/realwide" % (ob.name, seed), dict(ob.opts, wide=True))
    pts += [dict(e, **pr) for pr in ob.opts.get("probe", ()) for e in pts[:1]]
    for env in reversed(pts):
        env = to_f64(env)
        a, b, log = real_values(ob, env, hz)
        if a is None or b is None:
            continue
        k += 1
        if abs(a - b) > max(mpf(ob.opts.get("rtol", 1e-6)) * max(abs(a), abs(b)), mpf(10) ** -8 * ob.opts.get("scale", 1)) and genuine(ob, env, hz, a, b, reqs):
            return k, env, log
    return k, None, None


def genuine(ob, env, hz, a, b, reqs, tries=6):
    """the difference is well above the rounding noise of both sides (estimated by moving the input by a few units in the last place)"""
    if ob.opts.get("point"):
        return True
    rnd = random.Random(1)
    na = nb = mpf(0)
    seen = 0
    for _ in range(tries):
        e2 = {k: (mpf(float(v) * (1 + rnd.choice((-3, -2, -1, 1, 2, 3)) * 2.3e-16)) if isinstance(v, mpf) else v) for k, v in env.items()}
        x, y, _ = real_values(ob, e2, hz)
        if x is None or y is None:
            continue
        seen += 1
        na, nb = max(na, abs(x - a)), max(nb, abs(y - b))
    return seen >= tries // 2 and abs(a - b) > 200 * max(na, nb)


def write_replay(prop, i, data):
    os.makedirs(REPLAY, exist_ok=True)
    p = os.path.join(REPLAY, "%s-%d.json" % (prop, i))
    json.dump(data, open(p, "w"), indent=1, default=str)
    return p


def known():
    try:
        return json.load(open(KNOWN))
    except OSError:
        return []


def check(prop, tier, seed):
    t0 = time.time()
    from . import props
    from .core import Ctx
    engine._pool_init()
    info = props.PROPERTIES[prop]
    ctx = Ctx(REPO)
    notes = list(ctx.crate.errors)
    obs = info["obligations"](ctx)
    if tier == "thorough":
        for o in obs:
            o.opts = dict(o.opts, more=60)
    hz = getattr(harness, info.get("harness", "Harness"))(prop, REPO)
    for o in obs:
        for p in claim_functions(o):
            try:
                hz.add_fn(ctx.crate.fn(p))
            except LostAnchor:
                pass
        for key, expr in (o.snippets or {}).items():
            hz.add(key, expr)
    if hz.arms:
        hz.start()
    ln = engine.Lean(prop)
    lib = [None]

    def build_lib():
        try:
            ln.lib(info.get("lean", ("PV",)))
        except Exception as e:
            lib[0] = e
    lt = threading.Thread(target=build_lib)
    lt.start()
    t1 = time.time()
    res = engine.generate(obs, seed, tier)
    gen_s = time.time() - t1
    lt.join()
    if lib[0] is not None:
        raise lib[0]
    t2 = time.time()
    cpu = engine.run_lean(res, ln, timeout=info.get("timeout", 600), header=info.get("header", engine.HEADER))
    cpu += engine.retry(obs, res, ln, seed, tier, info.get("header", engine.HEADER), t0 + 560)
    lean_wall = time.time() - t2
    viol, bounded, findings = [], [], []
    kn = [k for k in known() if k.get("property") == prop and k.get("status") == "known"]
    for ob, r in zip(obs, res):
        if r.status == "proved":
            continue
        rep = {"property": prop, "obligation": r.name, "function": r.fn, "clause": r.clause, "verifier": r.detail, "theorem": r.thm}
        real = ob.claim is not None and hz.arms and hz.ready()
        if r.status == "violated":
            env = to_f64(r.env)
            rep["input"] = engine.envstr(env)
            if not real:
                viol.append((r, rep, False))
                continue
            compared = 0
            bad = None
            for e in (r.envs or [r.env])[:ob.opts.get("max_envs", 24)]:
                e = to_f64(e)
                a, b, log = real_values(ob, e, hz)
                rep.setdefault("real code", {"left": str(a), "right": str(b), "calls": log})
                if r.safety and "panic" in [c["returned"] for c in log]:
                    bad = e
                    break
                if a is None or b is None:
                    continue
                compared += 1
                if reldiff(a, b) > min(mpf(ob.opts.get("rtol", 1e-7)), mpf("1e-4")) and (len(r.envs) < 2 or genuine(ob, e, hz, a, b, None)):
                    bad = e
                    rep["real code"] = {"left": str(a), "right": str(b), "calls": log}
                    break
            if bad is None:
                k, bad, log = real_search(ob, hz, seed, 800)
                if bad is not None:
                    rep["real code"] = log
            if bad is not None:
                rep["input"] = engine.envstr(bad)
                viol.append((r, rep, True))
            elif compared and r.delta is not None and r.delta > mpf(10) ** -3:
                # the real code agrees where the reading of it does not: the reading is at fault
                r.status, r.detail = "bounded", "the source is outside the reader's subset (formula and compiled code disagree); compared at %d points" % k
                bounded.append(r)
            else:
                viol.append((r, rep, False))
        elif r.status == "bounded":
            if real:
                k, bad, log = real_search(ob, hz, seed, max(400, ob.opts.get("real_n", 0)) if tier == "quick" else 4000)
                if bad is not None:
                    rep["input"], rep["real code"] = engine.envstr(bad), log
                    viol.append((r, rep, True))
                    continue
                r.detail += "; bounded comparison of the compiled code at %d points" % k
            bounded.append(r)
        else:
            if real:
                k, bad, log = real_search(ob, hz, seed, 400)
                if bad is not None:
                    rep["input"], rep["real code"] = engine.envstr(bad), log
                    viol.append((r, rep, True))
                    continue
                if ob.opts.get("bounded_ok"):
                    r.status, r.detail = "bounded", "beyond the prover's reach (%s); compared at %d points: %s" % (ob.opts["bounded_ok"], k, r.detail[:200])
                    bounded.append(r)
                    continue
            viol.append((r, rep, False))
    extra = None
    if info.get("extra"):
        extra = info["extra"](ctx, obs, res, hz, tier, seed)
        for name, rep, conf in extra.get("violations", []):
            class _R:
                pass
            q = _R()
            q.name = name
            viol.append((q, rep, conf))
    fid = fidelity(ctx, obs, hz, seed, tier) if hz.arms and hz.ready() else {"skipped": hz.err or "no functions callable from outside"}
    nv = 0
    for r, rep, conf in viol:
        k = [x for x in kn if x["obligation"] == r.name]
        if k:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[0]["what"]))
            findings.append(r.name)
            continue
        nv += 1
        p = write_replay(prop, nv, rep)
        if nv <= 20:
            print("VIOLATION property=%s replay=%s%s" % (prop, p, "" if conf else " no-failing-input-found"))
            print("  obligation %s: %s" % (r.name, rep.get("clause")))
    c = Counter(r.status for r in res)
    fns = {}
    for o, r in zip(obs, res):
        fns.setdefault(o.fn, Counter())[r.status] += 1
    cov = {
        "obligations": len(res) + (extra or {}).get("obligations", 0),
        "discharged": c["proved"] + (extra or {}).get("discharged", 0),
        "checker_cmd": "lean %s/*.lean (Lean 4 kernel), generated from the current source" % ln.dir,
        "trusted_base": TRUSTED,
        "functions_under_contract": len(fns),
        "functions_read": len(set().union(*[set(r.used) for r in res]) if res else ()),
        "by_status": dict(c),
        "bounded_not_proved": [{"obligation": r.name, "why": r.detail[:300]} for r in bounded],
        "known_findings": findings,
        "distinct_statements": len({r.thm.replace(engine.thm_name(r.name), "") for r in res if r.thm}),
        "solver_cpu_s": round(cpu, 1), "solver_wall_s": round(lean_wall, 1), "generation_wall_s": round(gen_s, 1),
        "samples_per_obligation_min": min([r.nsamples for r in res if r.status == "proved"] or [0]),
        "definedness_requirements": sum(1 for r in res if r.thm and "(dom_" in r.thm),
        "fidelity": fid,
        "clauses": sorted({r.clause for r in res})[:60],
        "examples": [{"function": r.fn, "clause": r.clause, "requires": r.reqtext} for r in res[:3]],
    }
    if extra:
        cov["extra"] = extra.get("coverage", {})
    if notes:
        cov["notes"] = notes[:20]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": info.get("level", "proof"), "coverage": cov,
          "assumptions": BASE_ASSUMPTIONS + info.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": nv}
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    hz.close()
    print("%s %s: %d obligations, %s; fidelity %s; %.1f s (generation %.1f, Lean %.1f)" % (
        prop, tier, len(res), dict(c), {k: v for k, v in fid.items() if not isinstance(v, list)}, time.time() - t0, gen_s, lean_wall))
    for r in bounded[:10]:
        print("  bounded: %s: %s" % (r.name, r.detail[:200]))
    return 1 if nv else 0


class FidEv(Ev):
    """formula with the numerical library's functions taken from the compiled code"""

    def __init__(self, env, hz):
        Ev.__init__(self, env)
        self.hz = hz

    def _ev(self, e):
        if e.op == "call":
            if e.x in self.hz.index and not any(a.op == "lam" for a in e.args):
                r = self.hz.call(e.x, [self.ev(a) for a in e.args])
                if not isinstance(r, float) or r != r:
                    raise Undefined("no value")
                return mpf(r)
            raise Undefined("symbol")
        return Ev._ev(self, e)


def fidelity(ctx, obs, hz, seed, tier):
    """compare the extracted formula of each function under contract with the compiled function"""
    n = agree = und = 0
    worst = []
    fs = []
    for o in obs:
        if o.fn in hz.index and o.fn not in fs:
            fs.append(o.fn)
    rnd = random.Random(seed)
    if tier == "quick" and len(fs) > 60:
        fs = rnd.sample(fs, 60)
    for p in fs:
        f = ctx.crate.fn(p)
        try:
            A = ctx.args_of(p)
            e = ctx.code(p, A, math=True)
        except Exception:
            und += 1
            continue
        if not isinstance(e, E):
            continue
        for env in sample.points(set(A), sample.requires_of(set(A)), 1 if tier == "quick" else 4, "fid/%s/%s" % (p, seed)):
            env = to_f64(env)
            try:
                x = FidEv(env, hz).ev(e)
            except (Undefined, ZeroDivisionError, OverflowError, ValueError, TypeError, RecursionError):
                und += 1
                continue
            y = hz.call(p, [env[a.x] for a in A])
            n += 1
            if isinstance(y, float) and y == y and reldiff(mpf(x), mpf(y)) < mpf(10) ** -6:
                agree += 1
            else:
                worst.append({"function": p, "formula": str(x)[:20], "compiled": str(y), "input": engine.envstr(env)})
    return {"compared": n, "agree": agree, "not_comparable": und, "differences": worst[:8]}


def replay(path):
    """run the recorded input of a violation against the current source again"""
    d = json.load(open(path))
    print(json.dumps({k: v for k, v in d.items() if k != "theorem"}, indent=1)[:4000])
    from . import props
    from .core import Ctx
    engine._pool_init()
    ctx = Ctx(REPO)
    for ob in props.PROPERTIES[d["property"]]["obligations"](ctx):
        if ob.name == d["obligation"] and ob.claim is not None and "input" in d:
            hz = getattr(harness, props.PROPERTIES[d["property"]].get("harness", "Harness"))("replay", REPO)
            for p in claim_functions(ob):
                hz.add_fn(ctx.crate.fn(p))
            for key, expr in (ob.snippets or {}).items():
                hz.add(key, expr)
            hz.start()
            env = {k: (mpf(v) if isinstance(v, str) else v) for k, v in d["input"].items()}
            a, b, log = real_values(ob, env, hz)
            print("left  =", a)
            print("right =", b)
            hz.close()
            return 1 if reldiff(a, b) > min(mpf(ob.opts.get("rtol", 1e-7)), mpf("1e-4")) else 0
    return 0


def main(argv):
    sys.setrecursionlimit(200000)
    threading.stack_size(512 * 1024 * 1024)
    box = []

    def go():
        try:
            if argv[0] == "check":
                tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
                box.append(check(argv[1], tier, int(os.environ.get("VERIF_SEED", "1"))))
            elif argv[0] == "replay":
                box.append(replay(argv[1]))
            elif argv[0] == "setup":
                from .crate import build_rsdump
                build_rsdump()
                engine.Lean("setup").lib()
                box.append(0)
        except Exception:
            traceback.print_exc()
            box.append(2)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(box[0] if box else 2)
