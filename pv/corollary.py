"""Obligations that compose an equality proved about the code with a ghost lemma:
part B proves code = specification formula, the corollary rewrites the code's formula with it and applies the lemma."""
from .ir import *
from . import lean
from .deriv import Raw


class Corollary:
    """lhs (code) = rhs (specification) under reqs, then goal(raw text of lhs) from lemma applied to that equality

    goal, hyps and proof are functions of a printer t (expression -> Lean text)."""

    def __init__(self, lhs, rhs, reqs, goal, hyps=None, proof=None):
        self.lhs, self.rhs, self.reqs = lhs, rhs, list(reqs)
        self.goal, self.hyps, self.proof = goal, hyps, proof

    def screen_form(self):
        return self.lhs, self.rhs, self.reqs, {}

    def complete(self, env):
        return env

    def theorem(self, name, samples, seed):
        th = lean.Theorem(name + "_B", self.reqs, samples, seed)
        self.raw = Raw(lean.Theorem("x", [], []))
        th.short, th.opaque = self.raw.short, self.raw.opaque
        return th

    def text(self, th, btext, name):
        raw = self.raw
        v, t = raw.v, raw.t
        used = list(th.opaque_used)
        bvars = th.binder_vars()
        args = used + [v(b) for b in bvars]
        for at in th.base:
            args += ["_", "rfl" if not at.lifted else "(fun %s => rfl)" % " ".join("_" for _ in at.lifted)]
        goal = self.goal(t)
        hyps = self.hyps(t) if self.hyps else []
        proof = self.proof(t)
        fv = set(free_vars(self.lhs)) | set(free_vars(self.rhs)) | set(bvars)
        qn = []
        for i, q in enumerate(self.reqs):
            fv |= set(free_vars(q))
            hyps = hyps + ["(req%d : %s)" % (i, t(q))]
            qn.append("req%d" % i)
        bs = ["(%s : %s)" % (n, ty) for n, ty in raw.opaque.items()]
        bs += ["(%s : %s)" % (v(z), lean.TY[z.sort]) for z in sorted(fv, key=lambda z: z.x) if not raw.is_kvar(z)]
        return btext + "\ntheorem %s %s\n    %s :\n    %s := by\n  have hB : %s = %s := %s_B %s\n  %s\n" % (
            name, " ".join(bs), "\n    ".join(hyps), goal, t(self.lhs), t(self.rhs), name, " ".join(args + qn), proof)
