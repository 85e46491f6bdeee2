"""C12: stopping, warning, iteration count and history of every solver."""
from solvers import full

BOUNDS = ("2x2 matrices: static solvers with iteration limits 1..2 (3 never converging), time-varying ones with 2 times and limit 1 (thorough 2); 1x1 matrices: 3 or 4 iterations (static), 3 times with limit 2, 4 times with limit 1, 2 times with 3 iterations; all real data, "
          "parameters >= 0, rho > 0, sample counts > 0, tolerances > 0; objective computed from a given start (laplacian, l1, l2 penalties)")
ASSUMPTIONS = ["eigh and pinvh are uninterpreted functions of their argument with their documented contract",
               "log of a non-positive determinant is the same opaque constant for code and reference",
               "the first dual residual is measured from the zero matrix (the solvers' convention)"]


def tasks(T, tier):
    for s in ("kltgl", "ltgl", "ltmd", "tgl", "ktgl"):
        yield T("full", dict(solver=s, T=2, N=1, objective=True, init="array"), budget=300)
    for s in ("lgl", "gl"):
        yield T("full", dict(solver=s, N=1, objective=True, init="array"))
        yield T("full", dict(solver=s, N=2), budget=300)
    yield T("full", dict(solver="infimal", N=1, objective=True))
    yield T("full", dict(solver="infimal", N=2), budget=300)
    yield T("full", dict(solver="tgl", T=3, N=1, objective=True, init="empirical"), budget=300)
    yield T("full", dict(solver="tgl", T=2, N=1, psi="l1", objective=True, init="array", weights=False), budget=300)
    yield T("full", dict(solver="ktgl", T=3, N=1, psi="l2", init="array", weights=False), budget=300)
    for s in ("tgl", "ltmd"):
        yield T("full", dict(solver=s, d=1, T=3, N=2), budget=300)
    for s in ("kltgl", "ltgl", "ltmd", "tgl", "ktgl"):
        yield T("full", dict(solver=s, d=1, T=3, N=2, endless=True, upd="fixed"))
        yield T("full", dict(solver=s, d=1, T=4, N=1, objective=True, init="array"))
        yield T("full", dict(solver=s, d=1, T=2, N=3, endless=True, upd="fixed"))
    for s in ("gl", "lgl", "infimal"):
        yield T("full", dict(solver=s, d=1, N=3), budget=300)
        yield T("full", dict(solver=s, d=1, N=4, endless=True, upd="fixed"))
        yield T("full", dict(solver=s, d=2, N=3, endless=True, upd="fixed"))
    if tier == "thorough":
        for s in ("ktgl", "ltgl", "kltgl"):
            yield T("full", dict(solver=s, d=1, T=3, N=2), budget=3000, paths=4000)
        for s in ("tgl", "ktgl", "ltgl", "kltgl", "ltmd"):
            yield T("full", dict(solver=s, T=2, N=2), budget=3000, paths=4000)
            for p, q in (("l1", "l2"), ("l2", "l1")):
                yield T("full", dict(solver=s, T=2, N=1, psi=p, phi=q, objective=True, init="array"), budget=3000)
            yield T("full", dict(solver=s, T=3, N=1, objective=True, init="array"), budget=3000)
