"""C30: nothing the caller passes in is modified, and repeated calls agree."""
import numpy as np

import estimators as E
import c16
import c17
import c18
import c19
import solvers

G = "regain.generalized_linear_model."
L = "regain.linear_model."
BOUNDS = ("matrices 2x2 (up to 3 time points), up to 4 samples, all real values of every array and hyper-parameter; solver runs of "
          "1..2 iterations (thorough: 3), every way of starting them, fixed and adapted steps; estimators fitted twice, and after "
          "a fit on other data")
ASSUMPTIONS = ["the per-time subproblem solvers of the time-varying Ising and Poisson models and the M step of the missing-data "
               "lasso are opaque functions of their arguments",
               "helpers documented to work in place (matrix normalisation and repair) and the Ising samplers (which null the "
               "caller's diagonal) are outside of the claim; results may be views of the arguments"]


def kernel_input(h, name, T):
    """Any symmetric non-negative kernel (its diagonal plays no role in the problem, but is the caller's)."""
    k = solvers.kernel_input(h, name, T)
    for i in range(T):
        k[i, i] = h.nonneg("%s_d%d" % (name, i))
    return k


def snap(v):
    """Deep copy of arrays in lists, tuples and dictionaries."""
    if isinstance(v, dict):
        return {k: snap(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [snap(x) for x in v]
    if hasattr(v, "rnorm"):                     # record of an iteration (objective not computed)
        return [v.rnorm, v.snorm, v.e_pri, v.e_dual]
    if hasattr(v, "shape") and hasattr(v, "copy"):
        return v.copy()
    return v


def same(h, a, b, label):
    if isinstance(b, dict):
        h.check(isinstance(a, dict) and sorted(a) == sorted(b), label + " (keys)")
        for k in b:
            same(h, a[k], b[k], label)
    elif isinstance(b, list):
        h.check(len(a) == len(b), label + " (length)")
        for x, y in zip(a, b):
            same(h, x, y, label)
    elif b is None or isinstance(b, (str, bool)) or callable(b):
        h.check(a is b or a == b, label)
    else:
        h.equal(a, b, label)


def twice(h, call, given):
    """given: name -> argument."""
    keep = {k: snap(v) for k, v in given.items()}
    one = snap(call())
    for k in given:
        same(h, given[k], keep[k], k + " unchanged")
    two = snap(call())
    same(h, two, one, "same result again")
    for k in given:
        same(h, given[k], keep[k], k + " unchanged by the second call")


def solver(h, name, N=1, init="array", T=2, psi="laplacian", phi="laplacian", upd=True, endless=False, per_time=False):
    mod, fn = solvers.INFO[name]
    f = getattr(h.mod(mod), fn)
    static, d = name in solvers.STATIC, 2
    S = h.symmetric("S", d) if static else h.symmetrics("S", T, d)
    kw = dict(alpha=h.array("alphas", (T, 1, 1), nonneg=True) if per_time else h.nonneg("alpha"), rho=h.pos("rho"), max_iter=N,
              tol=h.lit(-1) if endless else h.pos("tol"), rtol=h.lit(0) if endless else h.pos("rtol"),
              return_history=True, return_n_iter=True, compute_objective=False)
    if upd:
        kw["update_rho_options"] = dict(mu=h.pos("mu"), tau_inc=h.pos("tau_inc"), tau_dec=h.pos("tau_dec"))
    if name not in ("infimal", "ltmd"):
        kw["init"] = (h.symmetric("Z0", d) if static else h.symmetrics("Z0", T, d)) if init == "array" else init
    if name in ("lgl", "infimal", "ltgl", "kltgl", "ltmd"):
        kw["tau"] = h.nonneg("tau")
    if name in ("tgl", "ltgl", "ltmd"):
        kw["beta"] = h.array("betas", (T - 1, 1, 1), nonneg=True) if per_time else h.nonneg("beta")
    if name in ("ltgl", "ltmd"):
        kw["eta"] = h.nonneg("eta")
    if not static:
        kw["psi"] = psi
        if name not in ("tgl", "ktgl"):
            kw["phi"] = phi
        if name != "ltmd":
            kw["n_samples"] = h.array("n", (T,), pos=True)
    if name == "ktgl":
        kw["kernel"] = kernel_input(h, "k", T)
    if name == "kltgl":
        kw["kernel_psi"], kw["kernel_phi"] = kernel_input(h, "kpsi", T), kernel_input(h, "kphi", T)
    if name == "gl":
        kw["over_relax"] = h.real("over")
    twice(h, lambda: f(S, **kw), dict(kw, emp_cov=S))


def forward_backward(h, N, laplacian):
    m = h.mod(c17.TG)
    S, Z, n = h.symmetrics("S", 2, 2), h.symmetrics("Z", 2, 2), h.array("n", (2,), pos=True)
    kw = dict(alpha=h.nonneg("alpha"), beta=h.nonneg("beta"), max_iter=N, n_samples=n, tol=h.pos("tol"), delta=h.pos("delta"),
              gamma=h.pos("gamma"), lamda=h.real("lamda"), eps=h.pos("eps"), choose="fixed", vareps=h.nonneg("vareps"), init=Z,
              laplacian_penalty=laplacian, return_history=True)
    twice(h, lambda: m.tgl_forward_backward(S, **kw)[:2], dict(kw, emp_cov=S))


def missing(h, pattern, N):
    m = h.mod(c16.MOD)
    gl = c16.Stub(h, len(pattern[0]))
    h.override(c16.MOD + ".graphical_lasso", gl)
    X = c16.data(h, pattern)
    mask = [[(i, j) for j, c in enumerate(r) if c == "x"] for i, r in enumerate(pattern)]
    kw = dict(alpha=h.nonneg("alpha"), rho=h.pos("rho"), max_iter=N, tol=h.pos("tol"), rtol=h.pos("rtol"),
              update_rho_options=dict(mu=float("inf")))
    seen = [X[i, j] for r in mask for i, j in r]

    def call():
        return m.missing_graphical_lasso(X, return_history=False, return_n_iter=True, **kw)
    one = snap(call())

    def kept(label):
        for v, (i, j) in zip(seen, [p for r in mask for p in r]):
            h.equal(X[i, j], v, label)
        for i, r in enumerate(pattern):
            for j, c in enumerate(r):
                if c == "-":
                    h.check(bool(np.isnan(X[i, j])), "missing entries stay missing")
    kept("data unchanged")
    same(h, snap(call()), one, "same result again")
    kept("data unchanged")
    if not gl.calls:
        raise ImportError("regain: the M step does not go through %s.graphical_lasso" % c16.MOD)


def temporal_glm(h, kind, N, T=2):
    m = h.mod(G + "glm_time_" + kind)
    X = h.array("X", (T, 1, 2))
    inner = c19.Inner(h, kind, 2)
    kw = dict(alpha=h.nonneg("alpha"), rho=h.pos("rho"), gamma=h.pos("gamma"), max_iter=N, tol=h.pos("tol"), rtol=h.pos("rtol"),
              psi="l1", return_history=False, return_n_iter=True, kernel=kernel_input(h, "k", T),
              update_rho_options=dict(mu=h.pos("mu"), tau_inc=h.pos("tau_inc"), tau_dec=h.pos("tau_dec")))
    twice(h, lambda: getattr(m, "_fit_time_%s_model" % kind)(X, **kw), dict(kw, X=X))
    inner.used()


def linear(h, name, groups=None):
    h.use_known()
    A, b = h.array("A", (2, 2)), h.array("b", (2,))
    kw = dict(lamda=h.pos("lamda"), rho=h.pos("rho"), max_iter=1, tol=h.pos("tol"), rtol=h.pos("rtol"))
    rho = kw["rho"]
    q = (A[0, 0] ** 2 + A[1, 0] ** 2 + rho) * (A[0, 1] ** 2 + A[1, 1] ** 2 + rho) - (A[0, 0] * A[0, 1] + A[1, 0] * A[1, 1]) ** 2
    h.assume(q > 0)
    if groups is not None:
        kw["groups"] = groups
    if name == "lasso":
        f = h.mod(L + "lasso_").lasso
        kw["alpha"] = h.pos("relax")
    elif name == "group":
        f = h.mod(L + "group_lasso_").group_lasso
    else:
        f = h.mod(L + "group_lasso_overlap_").group_lasso_overlap
    twice(h, lambda: f(A, b, **kw), dict(kw, A=A, b=b))


def fitted(e):
    out = {}
    for k in ("precision_", "latent_", "covariance_", "location_", "classes_", "n_iter_", "similarity_", "coef_", "intercept_",
              "complete_data_matrix_"):
        if getattr(e, k, None) is not None:
            out[k] = getattr(e, k)
    return snap(out)


def refit(h, make, data, other, given, label="fit"):
    """The fit on the same data is repeatable, by the same or another estimator, whatever was fitted before."""
    keep = {k: snap(v) for k, v in given.items()}
    a = make()
    a.fit(*data)
    one = fitted(a)
    h.check(len(one) > 0, "fit stores its result")
    for k in given:
        same(h, given[k], keep[k], k + " unchanged")
    a.fit(*other)
    a.fit(*data)
    same(h, fitted(a), one, "same result after a fit on other data")
    for k in given:
        same(h, given[k], keep[k], k + " unchanged by further fits")


def estimator(h, est, y, y2=None, N=1, init="zeros", kernel="array", centered=False, opts=False):
    mod, cls, fn, names = E.INFO[est]
    y = np.array(y)
    X, X2 = h.array("X", (len(y), 2)), h.array("U", (len(y2 or y), 2))
    y2 = np.array(y2) if y2 is not None else y
    T = len(set(y.tolist()))
    par = dict(alpha=h.nonneg("alpha"), rho=h.pos("rho"), tol=h.lit(-1), rtol=h.lit(0), max_iter=N, init=init)
    par["update_rho_options"] = dict(mu=h.pos("mu"), tau_inc=h.pos("tau_inc"), tau_dec=h.pos("tau_dec")) if opts else dict(mu=float("inf"))
    for p in names:
        if p in ("tau", "beta", "eta"):
            par[p] = h.nonneg(p)
        if p in ("psi", "phi"):
            par[p] = "laplacian"
        if p.startswith("kernel") and kernel == "array":
            par[p] = kernel_input(h, p, T)
    if init == "array":
        par["init"] = h.symmetric("Z0", 2) if est in E.STATIC else h.symmetrics("Z0", T, 2)
    if "over_relax" in names:
        par["over_relax"] = h.real("over")
    make = lambda: getattr(h.mod(mod), cls)(assume_centered=centered, compute_objective=False, **par)
    st = est in E.STATIC
    refit(h, make, (X,) if st else (X, y), (X2,) if st else (X2, y2), dict(par, X=X, y=y, U=X2, y2=y2))


def decomposition(h):
    m = h.mod("regain.covariance.latent_time_matrix_decomposition")
    S, U = h.symmetrics("S", 2, 2), h.symmetrics("U", 2, 2)
    par = dict(alpha=h.nonneg("alpha"), tau=h.nonneg("tau"), beta=h.nonneg("beta"), eta=h.nonneg("eta"), rho=h.pos("rho"),
               tol=h.lit(-1), rtol=h.lit(0), max_iter=1, psi="laplacian", phi="laplacian", update_rho_options=dict(mu=float("inf")))
    refit(h, lambda: m.LatentTimeMatrixDecomposition(compute_objective=False, **par), (S,), (U,), dict(par, S=S, U=U))


def glm(h, kind, y=None):
    """Estimators of the discrete models; the subproblem solver is opaque."""
    inner = c19.Inner(h, kind, 2)
    m = h.mod(G + "glm_time_" + kind)
    pool = [[1, 1], [1, -1], [-1, 1], [-1, -1]] if kind == "ising" else [[0, 3], [1, 2], [4, 1], [2, 2]]
    X, X2 = np.array(pool, dtype=float), np.array(pool[::-1], dtype=float)
    y, y2 = np.array([2, 0, 2, 0]), np.array([0, 0, 2, 2])
    par = dict(alpha=h.nonneg("alpha"), rho=h.pos("rho"), tol=h.lit(-1), rtol=h.lit(0), max_iter=1, psi="laplacian",
               kernel=kernel_input(h, "k", 2))
    cls = m.TemporalIsingModel if kind == "ising" else m.TemporalPoissonModel
    refit(h, lambda: cls(**par), (X, y), (X2, y2), dict(par, X=X, y=y, U=X2, y2=y2))
    inner.used()


def scoring(h, est, y):
    mod, cls, fn, names = E.INFO[est]
    e = getattr(h.mod(mod), cls)()
    y = np.array(y)
    T = len(set(y.tolist()))
    X = h.array("X", (len(y), 2))
    static = est in E.STATIC
    e.location_ = h.array("loc", (2,) if static else (T, 2))
    P = h.spd("P", 2) if static else np.array([h.spd("P%d" % t, 2) for t in range(T)])
    if est in E.LATENT:
        e.latent_ = h.symmetric("L", 2) if static else h.symmetrics("L", T, 2)
        e.precision_ = P + e.latent_
    else:
        e.precision_ = P
    e.classes_ = np.array(sorted(set(y.tolist())))
    given = dict(X=X, y=y, location=e.location_, precision=e.precision_)
    if est in E.LATENT:
        given["latent"] = e.latent_
    if static:
        twice(h, lambda: e.get_precision(), given)
    else:
        twice(h, lambda: (e.score(X, y), e.get_observed_precision()), given)


def prox(h, name):
    p = h.mod("regain.prox")
    a = h.symmetric("a", 2)
    b = h.symmetrics("b", 2, 2)
    v = h.array("v", (3,))
    lam, mu = h.pos("lam"), h.array("mus", (2, 1, 1), nonneg=True)
    cases = {
        "soft": (lambda: [p.soft_thresholding(a, lam), p.soft_thresholding(b, lam), p.soft_thresholding(b, mu)]),
        "off": (lambda: [p.soft_thresholding_off_diagonal(a, lam), p.soft_thresholding_off_diagonal(b, lam)]),
        "vector": (lambda: p.soft_thresholding_vector(v, lam)),
        "block": (lambda: p.blockwise_soft_thresholding(a, lam)),
        "blocksym": (lambda: p.blockwise_soft_thresholding_symmetric(a, lam)),
        "linf": (lambda: p.prox_linf(b, [lam, mu[0, 0, 0]])),
        "linf1d": (lambda: p.prox_linf_1d(v, lam)),
        "logdet": (lambda: [p.prox_logdet(a, lam), p.prox_logdet_ala_ma(a, lam)]),
        "trace": (lambda: p.prox_trace_indicator(a, lam)),
        "laplacian": (lambda: p.prox_laplacian(a, lam)),
        "fused": (lambda: p.prox_FL(b, lam, mu[0, 0, 0], p=1)),
    }
    twice(h, cases[name], dict(a=a, b=b, v=v, mu=mu))


def helpers(h, name):
    n, u, s, c = (h.mod("regain." + x) for x in ("norm", "utils", "scores", "clustering"))
    a, b, g, e = h.symmetric("a", 2), h.symmetrics("b", 2, 2), h.symmetrics("g", 2, 2), h.symmetric("e", 2)
    k, w = h.spd("K", 2), h.array("w", (2, 2))
    t, lo = h.pos("t"), h.real("lo")
    cases = {
        "norms": (lambda: [n.l1_norm(a), n.l1_od_norm(a), n.l1_od_norm(b), n.vector_p_norm(a, 2), n.matrix_l1_norm(a)]),
        "scores": (lambda: [s.log_likelihood(e, k), s.BIC(e, k), s.EBIC(e, k), s.EBIC_m(e, k)]),
        "threshold": (lambda: u.threshold(a, threshmin=lo)),
        "top": (lambda: [u.retain_top_n(w, 2)]),
        "errors": (lambda: u.error_norm(a, e)),
        "errors_t": (lambda: u.error_norm_time(b, g)),
        "structure": (lambda: u.structure_error(a, e)),
        "structure_thr": (lambda: u.structure_error(a, e, thresholding=True, eps=t)),
        "representative": (lambda: c.get_representative(b)),
        "distances": (lambda: c.compute_distances(b[:1], g[:1])),
    }
    twice(h, cases[name], dict(a=a, b=b, g=g, e=e, k=k, w=w))


def tasks(T, tier):
    th = tier == "thorough"
    for n in solvers.INFO:
        lat = n in ("ltgl", "kltgl", "ltmd")
        yield T("solver", dict(name=n, endless=lat), budget=300)
        if n in ("gl", "lgl", "tgl", "ktgl", "ltgl", "kltgl"):
            yield T("solver", dict(name=n, init="empirical", upd=False, endless=True), budget=300)
            if th or not lat:
                yield T("solver", dict(name=n, init="zeros", upd=False, endless=True), budget=300)
        if n not in solvers.STATIC:
            yield T("solver", dict(name=n, psi="l1", phi="l1", endless=True), budget=300)
            if th or n in ("tgl", "ktgl", "ltmd"):
                yield T("solver", dict(name=n, T=3, endless=True), budget=300)
        if n == "tgl":
            yield T("solver", dict(name=n, per_time=True, endless=True), budget=300)
        yield T("solver", dict(name=n, N=2, endless=True), budget=300)
        if th:
            yield T("solver", dict(name=n, N=3, endless=True), budget=900)
            yield T("solver", dict(name=n, N=2), budget=900)
    for lap in (False, True):
        yield T("forward_backward", dict(N=1, laplacian=lap))
        if th or lap:
            yield T("forward_backward", dict(N=2, laplacian=lap), budget=600)
    yield T("missing", dict(pattern=("x-", "-x"), N=1))
    yield T("missing", dict(pattern=("x-", "xx"), N=2))
    for k in ("ising", "poisson"):
        yield T("temporal_glm", dict(kind=k, N=1))
        yield T("temporal_glm", dict(kind=k, N=2))
        yield T("glm", dict(kind=k))
    yield T("linear", dict(name="lasso"))
    yield T("linear", dict(name="group", groups=[[0], [1]]))
    yield T("linear", dict(name="group", groups=[[1, 0]]))
    yield T("linear", dict(name="overlap", groups=[[0, 1], [1]]))
    for est in E.INFO:
        if est in E.STATIC:
            yield T("estimator", dict(est=est, y=(0, 0, 0), init="array"))
            yield T("estimator", dict(est=est, y=(0, 0), y2=(0, 0, 0), init="empirical", N=2 if est == "lgl" or th else 1, opts=True))
            yield T("estimator", dict(est=est, y=(0, 0), centered=True))
        else:
            yield T("estimator", dict(est=est, y=(2, 0, 2), y2=(0, 2, 0), init="array"))
            yield T("estimator", dict(est=est, y=(1, 0), opts=True, N=2))
            yield T("estimator", dict(est=est, y=(1, 0, 0), centered=True, init="empirical"))
            if est in ("tgl", "ltgl"):
                yield T("estimator", dict(est=est, y=(1, 0), y2=(3, 7, 5)))
            yield T("scoring", dict(est=est, y=(1, 0, 1)))
    yield T("decomposition", dict())
    for p in ("soft", "off", "vector", "block", "blocksym", "linf", "linf1d", "logdet", "trace", "laplacian", "fused"):
        yield T("prox", dict(name=p))
    for p in ("norms", "scores", "threshold", "top", "errors", "errors_t", "structure", "structure_thr", "representative", "distances"):
        yield T("helpers", dict(name=p))
