"""C13: step-size adaptation."""
import numpy as np

import refs
from solvers import updates

BOUNDS = ("the rule: all residuals >= 0, positive rho, mu and factors, no unrolling; rescaling: every solver, 2x2 matrices (2 times), two iterations "
          "with the step kept, multiplied or divided after the first (1x1: 3 times; static: three iterations), all rho, mu, factors > 0, all data; "
          "the forward-backward step: iterations 0..60, all values")
ASSUMPTIONS = ["eigh and pinvh are uninterpreted functions of their argument with their documented contract"]


def rule(h, defaults):
    u = h.mod("regain.update_rules").update_rho
    rho, r, s = h.pos("rho"), h.nonneg("rnorm"), h.nonneg("snorm")
    kw = {} if defaults else dict(mu=h.pos("mu"), tau_inc=h.pos("tau_inc"), tau_dec=h.pos("tau_dec"))
    out = u(rho, r, s, iteration=3, **kw)
    h.equal(out, refs.adapt(rho, r, s, **kw), "documented rule")
    h.check(out > 0, "stays positive")
    h.equal(u(rho, r, s, **kw), out, "iteration number is irrelevant")
    h.equal(u(rho, r, r, **(kw if not kw else dict(kw, mu=1 + kw["mu"]))), rho, "balanced residuals keep the step")


def gamma(h):
    u = h.mod("regain.update_rules").update_gamma
    g, eps = h.pos("gamma"), h.pos("eps")
    for it in range(61):
        out = u(g, it, eps=eps)
        h.equal(out, np.maximum(g / 2 if it % 20 == 0 else g, eps), "halved every twentieth iteration, never below eps")
        h.check(out >= eps, "positive")


def tasks(T, tier):
    yield T("rule", dict(defaults=False))
    yield T("rule", dict(defaults=True))
    yield T("gamma", {})
    fx = ("alpha", "beta", "tau", "eta")
    for s in ("kltgl", "ltgl", "ltmd", "tgl", "ktgl"):
        yield T("updates", dict(solver=s, T=2, N=2, endless=True, upd=True, weights=False, fixed=fx), budget=500)
    for s in ("gl", "lgl", "infimal"):
        yield T("updates", dict(solver=s, N=2, endless=True, upd=True))
        yield T("updates", dict(solver=s, N=2, endless=True, upd=False))
        yield T("updates", dict(solver=s, d=1, N=3, endless=True, upd=True))
    for s in ("kltgl", "ltgl", "tgl", "ktgl", "ltmd"):
        yield T("updates", dict(solver=s, d=1, T=3, N=2, endless=True, upd=True), budget=300)
    if tier == "thorough":
        for s in ("gl", "lgl", "infimal"):
            yield T("updates", dict(solver=s, N=3, endless=True, upd=True), budget=3000, paths=4000)
        for s in ("tgl", "ktgl", "ltmd"):
            yield T("updates", dict(solver=s, T=1, N=3, endless=True, upd=True), budget=3000, paths=4000)
