"""C06: latent variable graphical lasso."""
import numpy as np

from solvers import updates

BOUNDS = ("2x2 (one iteration: 3x3) covariances, iteration limits 1..2 (1x1, and 2x2 never converging: 3; thorough 3), all real covariances, alpha, tau >= 0, rho > 0, "
          "tolerances and step-adaptation options; init empirical, zeros, given")
ASSUMPTIONS = ["eigh and pinvh are uninterpreted functions of their argument with their documented contract; two calls share the "
               "result when the solver proves their arguments equal"]


def observed(h, d):
    """The estimator's observed precision is sparse minus latent, its error and score use that."""
    m = h.mod("regain.covariance.latent_graphical_lasso_")
    e = m.LatentGraphicalLasso()
    e.precision_, e.latent_ = h.symmetric("K", d), h.symmetric("L", d)
    K, L = e.precision_.copy(), e.latent_.copy()
    h.equal(e.get_precision(), K - L, "observed precision")
    h.equal(e.precision_, K, "precision kept")


def tasks(T, tier):
    for d in (2, 3):
        for init in ("empirical", "zeros", "array"):
            yield T("updates", dict(solver="lgl", d=d, N=1, init=init))
    for init in ("empirical", "zeros", "array"):
        yield T("updates", dict(solver="lgl", d=2, N=2, init=init))
    yield T("updates", dict(solver="lgl", d=2, N=2, upd=True))
    yield T("observed", dict(d=2))
    yield T("updates", dict(solver="lgl", d=2, N=3, endless=True, upd="fixed"))
    yield T("updates", dict(solver="lgl", d=1, N=3, upd=True))
    if tier == "thorough":
        yield T("updates", dict(solver="lgl", d=2, N=3, endless=True, upd=True), budget=3000, paths=4000)
        yield T("updates", dict(solver="lgl", d=3, N=2, endless=True, upd=True), budget=3000, paths=4000)
