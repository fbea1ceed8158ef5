"""Runs obligations: numeric screening, Lean proof, replay of counterexamples, evidence."""
import hashlib
import json
import multiprocessing
import os
import re
import subprocess
import sys
import time
import traceback
from mpmath import mpf, nstr
from .ir import *
from .crate import VERIF, WORK, LostAnchor, sh
from .symex import Unsupported
from .num import evaluate, close
from . import sample, lean, core


class Ob:
    """one clause of a contract: requires ⊢ lhs = rhs for the code as extracted now"""

    def __init__(self, name, fn, clause, alts, requires=None, opts=None, replay=None, facts=None, kind="eq", fallback=None, rhs_fns=(), claim=None, snippets=None):
        self.claim, self.snippets = claim, snippets
        self.name, self.fn, self.clause, self.alts = name, fn, clause, alts
        self.requires, self.opts, self.replay, self.kind = requires, opts or {}, replay, kind
        self.facts = facts
        self.fallback = fallback
        self.rhs_fns = list(rhs_fns)


class Res:
    def __init__(self, ob):
        self.name, self.fn, self.clause = ob.name, ob.fn, ob.clause
        self.status = None      # proved / violated / undecided / bounded
        self.thm = None
        self.env = None
        self.detail = ""
        self.t = 0.0
        self.gen_s = 0.0
        self.alt = 0
        self.lhs = self.rhs = None
        self.nsamples = 0
        self.nobl = 0       # integer and index obligations screened
        self.safety = False
        self.reqtext = []
        self.delta = None
        self.envs = []


def envstr(env):
    return {k: (nstr(v, 17) if isinstance(v, mpf) else v) for k, v in env.items()}


def thm_name(n):
    return "ob_" + re.sub(r"[^A-Za-z0-9_]", "_", n)


def screen(ob, lhs, rhs, reqs, seed, nb, conj=None):
    """numeric comparison; returns (samples, failing env or None)"""
    opts = ob.opts
    if conj:
        lhs, rhs, reqs, rg = conj.screen_form()
        opts = dict(opts, ranges=dict(rg, **opts.get("ranges", {})))
    vs = set(free_vars(lhs)) | set(free_vars(rhs))
    for q in reqs:
        vs |= set(free_vars(q))
    base = sample.points(vs, reqs, 10, "%s/%s" % (ob.name, seed), opts)
    if opts.get("more"):
        base += sample.points(vs, reqs, opts["more"], "%s/%s/m" % (ob.name, seed), opts)
    ok = []
    bad = None
    pts = list(base)
    if nb:
        pts += sample.boundary_points([lhs, rhs], vs, reqs, base, "%s/%s/b" % (ob.name, seed), nb)
    for e in pts:
        a, b = evaluate(lhs, e), evaluate(rhs, e)
        if a is None and b is None:
            continue
        if a is None or b is None:
            # one side leaves the reals: not a point of the contract unless nothing else is found
            continue
        full = conj.complete(e) if conj else e
        if full is None:
            continue
        if not close(a, b, mpf(10) ** -14):
            bad = (bad or []) + [(abs(a - b) / max(abs(a), abs(b)) if not isinstance(a, bool) else mpf(1), full)]
            continue
        ok.append(full)
    return ok, bad


def obl_env(o, env):
    """bindings of the loop variables of an obligation, from the ends and the middle of each range"""
    envs = [dict(env)]
    for k, n in o.binders:
        nxt = []
        for e in envs:
            m = evaluate(n, e)
            if m is None or m < 1:
                continue
            for v in sorted({0, int(m) // 2, int(m) - 1}):
                nxt.append(dict(e, **{k.x: v}))
        envs = nxt[:27]
    return envs


def screen_obls(obls, envs):
    """numeric check of the integer and index obligations met by the reader; returns (obligations, failing (obligation, env) or None)"""
    seen = {}
    for o in obls:
        if o.kind != "panic":
            seen.setdefault((o.fn, o.line, o.desc, o.cond.id, o.pc.id), o)
    for o in list(seen.values())[:400]:
        vs = {v.x for v in free_vars(o.cond)} | {v.x for v in free_vars(o.pc)}
        bound = {k.x for k, _ in o.binders}
        if any(n.op == "call" for e in (o.cond, o.pc) for n in nodes(e)):
            continue
        for e in envs[:6]:
            if not vs - bound <= set(e) | set(sample.CONSTS) or e.get("number_of_links", 2) < 2:
                continue
            for f in obl_env(o, e):
                if evaluate(o.pc, f) is True and evaluate(o.cond, f) is False:
                    return len(seen), (o, e)
    return len(seen), None


def dag_size(*es):
    seen = set()
    for e in es:
        for n in nodes(e):
            seen.add(n.id)
    return len(seen)


def work(args):
    """generate one obligation (in a worker process)"""
    ob, seed, tier = args[:3]
    start = args[3] if len(args) > 3 else 0
    r = Res(ob)
    core.USED.clear()
    t0 = time.time()
    try:
        last = None
        for i, alt in enumerate(ob.alts):
            if i < start:
                continue
            r.alt = i
            core.OBLS.clear()
            try:
                out = alt()
            except (Unsupported, LostAnchor) as e:
                last = ("bounded", "cannot be read: %s" % e)
                continue
            conj = None
            if not isinstance(out, tuple):
                conj, out = out, (out.lhs, out.rhs, out.reqs)
            lhs, rhs = out[0], out[1]
            reqs = list(out[2]) if len(out) > 2 else None
            if reqs is None:
                reqs = ob.requires if ob.requires is not None else sample.requires_of(set(free_vars(lhs)) | set(free_vars(rhs)))
                extra = []
            r.lhs, r.rhs = lhs, rhs
            if dag_size(lhs, rhs) > 30000:
                last = ("bounded", "expression too large")
                continue
            ok, bad = screen(ob, lhs, rhs, reqs, seed, 40, conj)
            r.nsamples = len(ok)
            if bad is not None:
                last = ("violated", "the two sides differ")
                bad = sorted(bad, key=lambda t: -t[0])
                r.delta, r.env = bad[0]
                r.envs = [e for d, e in bad[:24]]
                r.reqs = reqs
                continue
            big = sorted(ok, key=lambda e: -e.get("number_of_links", 0))[:2]
            r.nobl, hit = screen_obls(core.OBLS, big + ok[:4])
            if hit:
                last = ("violated", "%s line %d: not always true that the %s: %s" % (hit[0].fn, hit[0].line, hit[0].desc, show(hit[0].cond)[:200]))
                r.env, r.envs, r.reqs, r.delta, r.safety = hit[1], [hit[1]], reqs, None, True
                continue
            if not ok:
                last = ("undecided", "no sample point satisfies the requirements")
                continue
            try:
                if conj:
                    th = conj.theorem(thm_name(ob.name), ok[:8], seed)
                    r.thm = conj.text(th, th.prove(lhs, rhs), thm_name(ob.name))
                else:
                    th = lean.Theorem(thm_name(ob.name), reqs, ok[:8], seed)
                    th.rel = bool(ob.opts.get("rel"))
                    r.thm = th.prove(lhs, rhs)
                r.status = "gen"
                r.reqtext = [show(q) for q in reqs]
                break
            except lean.Fail as e:
                last = ("undecided", "no proof generated: %s" % e)
                continue
        if r.status is None:
            r.status, r.detail = last
    except RecursionError:
        r.status, r.detail = "bounded", "recursion limit in the reader"
    except Exception:
        r.status, r.detail = "bounded", "internal error of the generator: " + traceback.format_exc()[-1500:]
    r.gen_s = time.time() - t0
    r.used = dict(core.USED)
    return r


def _pool_init():
    sys.setrecursionlimit(200000)
    import threading
    threading.stack_size(512 * 1024 * 1024)


_obs = None


def _work_i(a):
    i, seed, tier, start = a
    import threading
    box = []
    t = threading.Thread(target=lambda: box.append(work((_obs[i], seed, tier, start))))
    t.start()
    t.join()
    r = box[0]
    r.lhs = r.rhs = None
    return i, r


def generate(obs, seed, tier, jobs=8, start=None):
    """obligations -> results with theorem text, in parallel; start: first way of proving to try, per obligation"""
    global _obs
    _obs = obs
    ctx = multiprocessing.get_context("fork")
    out = [None] * len(obs)
    with ctx.Pool(jobs, initializer=_pool_init) as p:
        for i, r in p.imap_unordered(_work_i, [(i, seed, tier, start[i] if start else 0) for i in range(len(obs))], chunksize=max(1, len(obs) // (jobs * 8))):
            out[i] = r
    return out


# --- Lean -----------------------------------------------------------------------------

def lean_env():
    env = dict(os.environ)
    if not env.get("LEAN_PATH"):
        base = "/app/mathlib4-4.33.0/.lake"
        ps = [base + "/build/lib", base + "/build/lib/lean"]
        for p in ("aesop", "proofwidgets", "importGraph", "Qq", "batteries", "plausible", "LeanSearchClient"):
            ps += [base + "/packages/%s/.lake/build/lib" % p, base + "/packages/%s/.lake/build/lib/lean" % p]
        ps.append("/app/lean4-4.33.0/build/release/stage1/lib/lean")
        env["LEAN_PATH"] = ":".join(ps)
    return env


def lean_exe():
    for p in os.environ.get("PATH", "").split(":") + ["/app/lean4-4.33.0/build/release/stage1/bin", "/usr/local/bin"]:
        q = os.path.join(p, "lean")
        if os.path.exists(q):
            return q
    return "lean"


class Lean:
    def __init__(self, name):
        self.dir = os.path.join(WORK, "lean-" + name)
        os.makedirs(self.dir, exist_ok=True)
        self.env = lean_env()
        self.env["LEAN_PATH"] = self.dir + ":" + self.env["LEAN_PATH"]
        self.exe = lean_exe()
        self.time = 0.0

    def lib(self, names=("PV",)):
        """compile the ghost library; a tuple of names is compiled in parallel"""
        for g in names:
            g = (g,) if isinstance(g, str) else g
            ps = []
            for n in g:
                src = open(os.path.join(VERIF, "lean", n + ".lean")).read()
                open(os.path.join(self.dir, n + ".lean"), "w").write(src)
                ps.append((n, subprocess.Popen([self.exe, "-o", n + ".olean", n + ".lean"], cwd=self.dir, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            for n, p in ps:
                out = p.communicate()[0]
                if p.returncode != 0:
                    raise RuntimeError("ghost library %s does not compile:\n%s" % (n, out[-4000:]))
                if re.search(r"declaration uses `?'?sorry", out):
                    raise RuntimeError("ghost library %s uses sorry" % n)

    def check_file(self, fname, theorems, header, timeout=600):
        """theorems: [(name, text)]; returns {name: error text or None}"""
        lines = header.split("\n")
        spans = []
        for n, t in theorems:
            a = len(lines) + 1
            lines += t.split("\n")
            spans.append((a, len(lines), n))
        lines += ["#print axioms %s" % theorems[-1][0]] if theorems else []
        path = os.path.join(self.dir, fname)
        open(path, "w").write("\n".join(lines) + "\n")
        t0 = time.time()
        try:
            r = subprocess.run([self.exe, "--json", fname], cwd=self.dir, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
            out, rc = r.stdout, r.returncode
            err = r.stderr
        except subprocess.TimeoutExpired as e:
            return {n: "timeout after %d s" % timeout for n, _ in theorems}, time.time() - t0
        dt = time.time() - t0
        res = {n: None for n, _ in theorems}
        seen = False
        for line in out.split("\n"):
            if not line.startswith("{"):
                continue
            m = json.loads(line)
            if "axioms" in m["data"] or "does not depend on any" in m["data"]:
                seen = True
            bad = m["severity"] == "error" or "sorry" in m["data"]
            if bad:
                ln = min(m["pos"]["line"], spans[-1][1]) if spans else m["pos"]["line"]
                hit = False
                for a, b, n in spans:
                    if a <= ln <= b:
                        res[n] = (res[n] or "") + "line %d: %s\n" % (ln - a + 1, m["data"][:1500])
                        hit = True
                if not hit:
                    for n in res:
                        res[n] = res[n] or ("error outside theorems: " + m["data"][:500])
        if not seen and rc != 0 and not any(res.values()):
            for n in res:
                res[n] = "lean exited with %d: %s" % (rc, err[-500:])
        if not seen and all(v is None for v in res.values()):
            for n in res:
                res[n] = "lean did not reach the end of the file (%s)" % err[-300:]
        return res, dt


HEADER = "import PV\nset_option maxHeartbeats 800000\nset_option linter.all false\nset_option maxRecDepth 20000\n"


def retry(obs, res, ln, seed, tier, header, deadline):
    """other ways of proving what the prover did not accept; returns the prover's time"""
    cpu = 0.0
    for k in range(3):
        todo = [i for i, r in enumerate(res) if r.status == "unproved" and r.alt + 1 < len(obs[i].alts)]
        left = deadline - time.time()
        if not todo or left < 30:
            break
        new = generate([obs[i] for i in todo], seed, tier, start=[res[i].alt + 1 for i in todo])
        left = deadline - time.time()
        if left > 20:
            cpu += run_lean(new, ln, timeout=left, header=header, tag="r%d_" % k)
        for i, r in zip(todo, new):
            if r.status in ("proved", "violated"):
                res[i] = r
            else:
                res[i].alt = max(res[i].alt, r.alt)
    return cpu


def run_lean(results, ln, jobs=8, timeout=600, header=HEADER, tag="c"):
    """check all generated theorems; fills in status"""
    todo = [r for r in results if r.status == "gen"]
    if not todo:
        return 0.0
    # identical statements (up to the name) are checked once
    groups = {}
    for r in todo:
        key = r.thm.replace(thm_name(r.name), "ob_X")
        groups.setdefault(key, []).append(r)
    reps = [g[0] for g in groups.values()]
    reps.sort(key=lambda r: -len(r.thm))
    n = min(max(1, (len(reps) + 2) // 3), jobs * 2 if len(reps) > 60 else jobs)
    chunks = [reps[i::n] for i in range(n)]
    from concurrent.futures import ThreadPoolExecutor
    total = 0.0

    def go(i):
        return chunks[i], ln.check_file("%s%d.lean" % (tag, i), [(thm_name(r.name), r.thm) for r in chunks[i]], header, timeout)
    with ThreadPoolExecutor(jobs) as ex:
        for ch, (res, dt) in ex.map(go, range(n)):
            total += dt
            for r in ch:
                e = res[thm_name(r.name)]
                r.status = "proved" if e is None else "unproved"
                r.detail = e or ""
    for g in groups.values():
        for r in g[1:]:
            r.status, r.detail = g[0].status, g[0].detail
            r.shared = g[0].name
    return total
