"""C11: sparse plus low-rank decomposition, static and time-varying."""
from solvers import updates

BOUNDS = ("2x2 (static, one iteration: 3x3) matrices, 1..3 times, one or two iterations (static: three; 1x1 matrices: 3 iterations of 3 times, 2 of 4, 1 of 5); all real matrices, alpha, tau, beta, eta >= 0, rho > 0, "
          "tolerances, step options; penalties laplacian, l1, l2 for both parts")
ASSUMPTIONS = ["eigh and pinvh are uninterpreted functions of their argument with their documented contract; two calls share the "
               "result when the solver proves their arguments equal"]


def tasks(T, tier):
    yield T("updates", dict(solver="ltmd", T=2, N=2, endless=True), budget=500)
    for d in (2, 3):
        yield T("updates", dict(solver="infimal", d=d))
    yield T("updates", dict(solver="infimal", N=2))
    yield T("updates", dict(solver="infimal", N=2, upd=True))
    for t in (1, 2, 3):
        yield T("updates", dict(solver="ltmd", T=t))
    for p, q in (("l1", "l2"), ("l2", "l1"), ("laplacian", "l1")):
        yield T("updates", dict(solver="ltmd", T=2, psi=p, phi=q))
    yield T("updates", dict(solver="ltmd", T=1, N=2, endless=True, upd=True))
    for t, p, q in ((3, "laplacian", "laplacian"), (2, "l1", "l2"), (2, "l2", "l1"), (2, "l1", "laplacian")):
        yield T("updates", dict(solver="ltmd", T=t, N=2, endless=True, upd="fixed", psi=p, phi=q), budget=400)
    for kw in (dict(T=5, N=1), dict(T=3, N=3), dict(T=4, N=2)):
        yield T("updates", dict(solver="ltmd", d=1, endless=True, upd="fixed", **kw), budget=300)
    yield T("updates", dict(solver="infimal", d=2, N=3, endless=True, upd="fixed"))
    if tier == "thorough":
        yield T("updates", dict(solver="infimal", N=3, endless=True, upd=True), budget=3000, paths=4000)
        for p, q in (("laplacian", "laplacian"), ("l1", "l2"), ("l2", "laplacian")):
            yield T("updates", dict(solver="ltmd", T=2, N=2, psi=p, phi=q), budget=3000, paths=4000)
            yield T("updates", dict(solver="ltmd", T=3, N=2, psi=p, phi=q, endless=True), budget=3000, paths=4000)
