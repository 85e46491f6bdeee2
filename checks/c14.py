"""C14: estimators group samples by label and pass on every hyper-parameter."""
import numpy as np

import estimators as E

BOUNDS = ("2..6 samples with 2 features and arbitrary real values; arbitrary real labels for up to 3 samples (every order and "
          "coincidence), label tuples with up to 3 classes otherwise; all real hyper-parameters (alpha, beta, tau, eta, rho, "
          "tol, rtol, over-relaxation, step adaptation options); 1..2 solver iterations; psi and phi from laplacian, l1")
ASSUMPTIONS = ["the estimator is compared with a direct call of the public solver function of the same tree (what the solver "
               "computes is decided by C05-C10)",
               "kernel parameter search (ker_param='auto') and learned similarity (kernel=None in the Similarity classes) "
               "are outside of the claim"]


def fit(h, est, y, centered=False, N=1, init="zeros", psi="l1", phi="laplacian", kernel="array", opts=False,
        history=False, stop=False, endless=False):
    mod, cls, fn, names = E.INFO[est]
    m = h.mod(mod)
    y = E.labels(h, y)
    n, d = len(y), 2
    X = h.array("X", (n, d))
    X0, y0 = X.copy(), y.copy()
    vals, idx = E.groups(y0)
    if est in E.STATIC:
        vals, idx = [0], [list(range(n))]
    T = len(vals)
    par = dict(alpha=h.nonneg("alpha"), rho=h.pos("rho"), tol=h.pos("tol"), rtol=h.pos("rtol"), max_iter=N)
    if endless:
        par["tol"], par["rtol"] = h.lit(-1), h.lit(0)
    if opts:
        par["update_rho_options"] = dict(mu=h.pos("mu"), tau_inc=h.pos("tau_inc"), tau_dec=h.pos("tau_dec"))
    else:
        par["update_rho_options"] = dict(mu=float("inf"))
    for p in names:
        if p in ("tau", "beta", "eta"):
            par[p] = h.nonneg(p)
    if "over_relax" in names:
        par["over_relax"] = h.real("over_relax")
    if "psi" in names:
        par["psi"] = psi
    if "phi" in names:
        par["phi"] = phi
    if init == "array":
        par["init"] = h.symmetric("Z0", d) if est in E.STATIC else h.symmetrics("Z0", T, d)
    else:
        par["init"] = init
    if stop:
        par["stop_at"], par["stop_when"] = h.real("stop_at"), h.pos("stop_when")
    solver = dict(par)
    times = np.array(vals).reshape(-1, 1) if est not in E.STATIC else None
    for p in ("kernel", "kernel_psi", "kernel_phi"):
        if p not in names:
            continue
        q = {"kernel": "ker_param", "kernel_psi": "ker_psi_param", "kernel_phi": "ker_phi_param"}[p]
        if kernel == "none":
            solver[p] = np.eye(T)
            continue
        if kernel == "array":
            k = np.eye(T)
            for i in range(T):
                for j in range(i):
                    k[i, j] = k[j, i] = h.nonneg("%s_%d_%d" % (p, j, i))
            par[p] = k
            solver[p] = k.copy()
            continue
        kc = E.ScaleKernel if kernel == "scale" else E.ConstKernel
        par[p] = kc
        par[q] = h.pos(q)
        solver[p] = kc(par[q])(times)
    if history:
        par["return_history"] = True
    e = getattr(m, cls)(assume_centered=centered, compute_objective=bool(stop), **par)
    h.check((e.fit(X, y) if est not in E.STATIC else e.fit(X)) is e, "fit returns the estimator")
    h.equal(X, X0, "data unchanged")
    h.equal(y, y0, "labels unchanged")
    covs, locs = [], []
    for rows in idx:
        c, mu = E.covariance(h, X0, rows, not centered)
        covs.append(c)
        locs.append(mu if not centered else [0] * d)
    f = getattr(m, fn)
    solver.update(return_n_iter=True, return_history=history, compute_objective=bool(stop))
    if est in E.STATIC:
        emp = covs[0]
        h.equal(e.location_, np.array(locs[0]), "location")
    else:
        emp = np.array(covs)
        h.equal(e.location_, np.array(locs), "location of each class")
        h.equal(e.classes_, np.array(vals), "classes are the sorted distinct labels")
        solver["n_samples"] = np.array([len(r) for r in idx])
    out = f(emp, **solver)
    h.equal(e.precision_, out[0], "precision as computed from the labelled samples and the given parameters")
    k = 1
    if est in E.LATENT:
        h.equal(e.latent_, out[1], "latent part as computed from the labelled samples and the given parameters")
        k = 2
        obs = e.get_precision() if est == "lgl" else e.get_observed_precision()
        h.equal(obs, out[0] - out[1], "observed precision")
    elif est not in E.STATIC:
        h.equal(e.get_observed_precision(), out[0], "observed precision")
    h.equal(e.covariance_, out[k], "covariance")
    h.equal(e.n_iter_, out[-1], "number of iterations")
    if history:
        h.check(len(e.history_) == len(out[-2]), "history length")


def mismatch(h, est):
    """A kernel of the wrong size is rejected."""
    mod, cls, fn, names = E.INFO[est]
    X = h.array("X", (3, 2))
    par = {p: np.eye(2) for p in names if p.startswith("kernel")}
    e = getattr(h.mod(mod), cls)(max_iter=1, init="zeros", **par)
    h.raises(ValueError, lambda: e.fit(X, np.array([0, 1, 2])), "kernel size mismatch is rejected")


def tasks(T, tier):
    for est in E.INFO:
        if est in E.STATIC:
            for c in (False, True):
                yield T("fit", dict(est=est, y=(0, 0, 0), centered=c))
            yield T("fit", dict(est=est, y=(0, 0), N=2, opts=True))
            yield T("fit", dict(est=est, y=(0, 0), init="array"))
            yield T("fit", dict(est=est, y=(0, 0, 0), init="empirical", centered=True))
            continue
        lat = est in E.LATENT
        yield T("fit", dict(est=est, y=3 if est == "tgl" or tier == "thorough" else 2, endless=True), budget=600)
        if est == "tgl" or tier == "thorough":
            yield T("fit", dict(est=est, y=3 if est == "tgl" else 2, centered=True, endless=True), budget=600)
        yield T("fit", dict(est=est, y=(2, -1, 2, 0, -1), psi="laplacian", phi="l1", endless=lat))
        yield T("fit", dict(est=est, y=(0.5, 0.25, 0.5), init="array"))
        yield T("fit", dict(est=est, y=(1, 0), N=2))
        yield T("fit", dict(est=est, y=(1, 0), N=2, opts=True, endless=lat))
        if est in E.HISTORY:
            yield T("fit", dict(est=est, y=(1, 0, 1), history=True, endless=lat))
        if est == "tgl":
            yield T("fit", dict(est=est, y=(1, 0), N=2, stop=True))
        if est in ("ktgl", "kltgl"):
            for k in ("none", "scale", "const"):
                yield T("fit", dict(est=est, y=(3, 1, 3), kernel=k, endless=lat))
        if est in ("ktgl", "kltgl", "stgl", "sltgl"):
            yield T("mismatch", dict(est=est), samples=2)
        if tier == "thorough":
            yield T("fit", dict(est=est, y=(1, 0), N=2, opts=True), budget=600)
            yield T("fit", dict(est=est, y=(0, 2, 1, 3), endless=True), budget=600)
