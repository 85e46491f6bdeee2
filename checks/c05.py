"""C05: static graphical lasso."""
import numpy as np

import refs

BOUNDS = ("2x2 (one iteration: 3x3) covariances, iteration limits 1..2 (1x1: 3; thorough 3), all real covariances, alpha >= 0, rho > 0, "
          "relaxation, tolerances and step-adaptation options; init empirical, zeros, given")
ASSUMPTIONS = ["eigh and pinvh are uninterpreted functions of their argument with their documented contract; two calls share the "
               "result when the solver proves their arguments equal"]


def updates(h, d, N, init, upd, relax=True):
    gl = h.mod("regain.covariance.graphical_lasso_")
    S = h.symmetric("S", d)
    S0 = S.copy()
    alpha, rho = h.nonneg("alpha"), h.pos("rho")
    over = h.real("over_relax") if relax else 1
    tol, rtol = h.pos("tol"), h.pos("rtol")
    given = h.symmetric("Z0", d) if init == "array" else None
    opts = dict(mu=h.pos("mu"), tau_inc=h.pos("tau_inc"), tau_dec=h.pos("tau_dec")) if upd else None
    g0 = given.copy() if given is not None else None
    Z, cov = gl.graphical_lasso(S, alpha=alpha, rho=rho, over_relax=over, max_iter=N, tol=tol, rtol=rtol,
                                return_n_iter=False, update_rho_options=opts, compute_objective=False,
                                init=given if init == "array" else init)
    ref = refs.graphical_lasso(h, S0, alpha, rho, over, N, tol, rtol, refs.init(h, S0, init, g0), opts)
    h.equal(Z, ref.state.Z, "precision after the last iteration")
    h.equal(Z, Z.T, "symmetric")
    h.equal(S, S0, "covariance unchanged")


def tasks(T, tier):
    for d in (2, 3):
        for init in ("empirical", "zeros", "array"):
            yield T("updates", dict(d=d, N=1, init=init, upd=False))
    for init in ("empirical", "zeros", "array"):
        yield T("updates", dict(d=2, N=2, init=init, upd=False))
    yield T("updates", dict(d=2, N=2, init="zeros", upd=True))
    yield T("updates", dict(d=1, N=3, init="array", upd=True))
    if tier == "thorough":
        yield T("updates", dict(d=3, N=2, init="zeros", upd=True), budget=1800, paths=2000)
        yield T("updates", dict(d=2, N=3, init="zeros", upd=True), budget=1800, paths=2000)
        yield T("updates", dict(d=2, N=3, init="zeros", upd=False), budget=1800, paths=2000)
