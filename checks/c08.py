"""C08: latent time-varying graphical lasso."""
from solvers import updates

BOUNDS = ("1..3 times of 2x2 covariances, one iteration from every start, two iterations (never converging) with 1..2 times; 1x1 matrices: 3 iterations of 3 times, 2 of 4, 1 of 5; all real "
          "covariances, sample counts > 0, alpha, tau, beta, eta >= 0, rho > 0, tolerances, step options; penalties laplacian, l1, l2 for "
          "both parts; init empirical, zeros, given")
ASSUMPTIONS = ["eigh and pinvh are uninterpreted functions of their argument with their documented contract; two calls share the "
               "result when the solver proves their arguments equal", "scalar tau, eta (the documented type)"]


def tasks(T, tier):
    yield T("updates", dict(solver="ltgl", T=2, N=2, endless=True), budget=600)
    yield T("updates", dict(solver="ltgl", T=3), budget=400)
    for t in (1, 2):
        yield T("updates", dict(solver="ltgl", T=t, init="zeros" if t != 2 else "array"))
    for p, q in (("l1", "l2"), ("l2", "l1"), ("laplacian", "l1")):
        yield T("updates", dict(solver="ltgl", T=2, psi=p, phi=q))
    yield T("updates", dict(solver="ltgl", T=2, init="empirical"))
    yield T("updates", dict(solver="ltgl", T=1, N=2, endless=True, upd=True))
    for t, p, q in ((3, "laplacian", "laplacian"), (2, "l1", "l2"), (2, "l2", "l1"), (2, "l1", "laplacian")):
        yield T("updates", dict(solver="ltgl", T=t, N=2, endless=True, upd="fixed", psi=p, phi=q), budget=400)
    for kw in (dict(T=5, N=1), dict(T=3, N=3), dict(T=4, N=2)):
        yield T("updates", dict(solver="ktgl", d=1, endless=True, upd="fixed", **kw), budget=300)
    if tier == "thorough":
        for p, q in (("laplacian", "laplacian"), ("l1", "l2"), ("l2", "laplacian")):
            yield T("updates", dict(solver="ltgl", T=2, N=2, psi=p, phi=q), budget=3000, paths=4000)
            yield T("updates", dict(solver="ltgl", T=3, N=2, psi=p, phi=q, endless=True), budget=3000, paths=4000)
        yield T("updates", dict(solver="ltgl", T=4, N=1), budget=3000, paths=4000)
