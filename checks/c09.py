"""C09: kernel time-varying graphical lasso."""
from solvers import updates

BOUNDS = ("1..4 times of 2x2 covariances, one iteration from every start, two iterations (never converging) with 2 times; 1x1 matrices: 3 iterations of 3 times, 2 of 4, 1 of 5; all real "
          "covariances, sample counts > 0, symmetric kernels with entries >= 0, alpha >= 0, rho > 0, tolerances, step options; penalties "
          "laplacian, l1, l2; init empirical, zeros, given")
ASSUMPTIONS = ["eigh and pinvh are uninterpreted functions of their argument with their documented contract; two calls share the "
               "result when the solver proves their arguments equal"]


def tasks(T, tier):
    for t in (2, 3):
        yield T("updates", dict(solver="ktgl", T=t, init="zeros" if t != 2 else "array"))
    yield T("updates", dict(solver="ktgl", T=4, weights=False, fixed=("tol", "rtol")), budget=500)
    for p in ("l1", "l2"):
        yield T("updates", dict(solver="ktgl", T=2, psi=p))
    yield T("updates", dict(solver="ktgl", T=3, psi="l1", weights=False))
    yield T("updates", dict(solver="ktgl", T=2, init="empirical", psi="l1"))
    yield T("updates", dict(solver="ktgl", T=2, N=2, endless=True, upd=True), budget=400)
    for t, p, q in ((3, "laplacian", "laplacian"), (2, "l1", "l2"), (2, "l2", "l1"), (2, "l1", "laplacian")):
        yield T("updates", dict(solver="ktgl", T=t, N=2, endless=True, upd="fixed", psi=p, phi=q), budget=400)
    for kw in (dict(T=5, N=1), dict(T=3, N=3), dict(T=4, N=2)):
        yield T("updates", dict(solver="ltgl", d=1, endless=True, upd="fixed", **kw), budget=300)
    if tier == "thorough":
        for p in ("laplacian", "l1", "l2"):
            yield T("updates", dict(solver="ktgl", T=3, N=2, endless=True, psi=p), budget=3000, paths=4000)
            yield T("updates", dict(solver="ktgl", T=2, N=2, psi=p, init="array"), budget=3000, paths=4000)
