"""C20: lasso, group lasso and overlapping group lasso regressions."""
import math

import numpy as np

M = "regain.linear_model."
P = "regain.wrapper.paspal.glopridu"
BOUNDS = ("up to 2 features and 1..3 samples with an arbitrary real design for one iteration; up to 3 features with a fixed design "
          "and arbitrary responses, penalties, relaxations and tolerances for two iterations (thorough: three); groups of 1..2 "
          "features, disjoint or overlapping; up to 12 iterations with one feature for the repeated stopping test of the overlapping "
          "solver; proximal step of the latent group lasso with up to 3 features and 2 blocks")
ASSUMPTIONS = ["sklearn's linear-model base classes centre the data before and set the intercept after the fit",
               "the convergence of the inner Newton method of the paspal solver is outside of the claim"]

DESIGN = {(2, 1): [[1], [2]], (3, 2): [[1, 0], [1, 2], [0, 1]], (2, 2): [[1, 1], [0, 2]], (1, 2): [[1, 2]], (2, 3): [[1, 0, 1], [0, 1, 1]],
          (3, 3): [[1, 0, 1], [0, 1, 1], [0, 0, 1]], (1, 1): [[2]]}


def soft(x, l):
    return np.sign(x) * np.maximum(np.abs(x) - l, 0)


def norm(x):
    s = 0
    for v in x:
        s = s + v * v
    return np.sqrt(s)


def group_soft(v, l):
    """Proximal point of l * ||.||_2 ."""
    nv = norm(v)
    c = np.maximum(1 - l / np.where(nv == 0, 1, nv), 0)
    return [c * x for x in v]


def data(h, n, d, fixed):
    if fixed:
        A = h.empty((n, d))
        for i in range(n):
            for j in range(d):
                A[i, j] = h.lit(DESIGN[n, d][i][j])
    else:
        A = h.array("A", (n, d))
    return A, h.array("b", (n,))


def problem(h, n, d, fixed):
    A, b = data(h, n, d, fixed)
    lam, rho, tol, rtol = h.nonneg("lamda"), h.pos("rho"), h.nonneg("tol"), h.nonneg("rtol")
    return A, b, lam, rho, tol, rtol


def residual(A, b, x):
    n, d = A.shape
    s = 0
    for i in range(n):
        r = -b[i]
        for j in range(d):
            r = r + A[i, j] * x[j]
        s = s + r * r
    return s / 2


def det_positive(h, A, w):
    """A'A + diag(w) is positive definite for w > 0 (a theorem; the solver need not find it)."""
    n, d = A.shape
    if d == 2:
        G = h.matmul(A.T, A)
        h.assume((G[0, 0] + w[0]) * (G[1, 1] + w[1]) - G[0, 1] * G[1, 0] > 0)


def inverse2(G, q, back=True):
    if back:                # by substitution
        x1 = (G[0, 0] * q[1] - G[1, 0] * q[0]) / (G[0, 0] * G[1, 1] - G[0, 1] * G[1, 0])
        return [(q[0] - G[0, 1] * x1) / G[0, 0], x1]
    det = G[0, 0] * G[1, 1] - G[0, 1] * G[1, 0]
    return [(G[1, 1] * q[0] - G[0, 1] * q[1]) / det, (G[0, 0] * q[1] - G[1, 0] * q[0]) / det]


def ridge(h, A, w, q, fat=True):
    """Solution of (A'A + diag(w)) x = q."""
    n, d = A.shape
    if n < d and fat:       # Woodbury, equal weights
        v = A.dot(np.array(q))
        G = h.matmul(A, A.T) / w[0]
        for j in range(n):
            G[j, j] = G[j, j] + 1
        s = [v[0] / G[0, 0]] if n == 1 else inverse2(G, v)
        return [(q[j] - sum(A[i, j] * s[i] for i in range(n)) / w[0]) / w[0] for j in range(d)]
    G = h.matmul(A.T, A)
    for j in range(d):
        G[j, j] = G[j, j] + w[j]
    if d == 1:
        return [q[0] / G[0, 0]]
    if d == 2:
        return inverse2(G, q, fat)
    return list(np.linalg.inv(G).dot(np.array(q)))


def records(h, rec, ref):
    for got, want, label in zip(rec, ref, ("objective", "primal residual", "dual residual", "primal tolerance", "dual tolerance")):
        h.equal(got, want, label)


def solver(h, n, d, N, groups=None, relax=True, fixed=False, hist=True):
    """Every iterate of (group) lasso is the ADMM iterate of its problem; stops when both residuals pass."""
    h.use_known()
    A, b, lam, rho, tol, rtol = problem(h, n, d, fixed)
    alpha = h.pos("alpha") if relax else h.lit(1)
    A0, b0 = A.copy(), b.copy()
    kw = dict(lamda=lam, rho=rho, max_iter=N, tol=tol, rtol=rtol, return_history=hist)
    det_positive(h, A, [rho] * d)
    if relax:
        kw["alpha"] = alpha
    if groups is None:
        out = h.mod(M + "lasso_").lasso(A, b, **kw)
    else:
        out = h.mod(M + "group_lasso_").group_lasso(A, b, groups=groups, **kw)
    h.equal(A, A0, "design unchanged")
    h.equal(b, b0, "responses unchanged")
    z = [h.lit(0)] * d
    u = [h.lit(0)] * d
    Ab = A0.T.dot(b0)
    for k in range(N):
        x = ridge(h, A0, [rho] * d, [Ab[j] + rho * (z[j] - u[j]) for j in range(d)])
        xh = [alpha * x[j] + (1 - alpha) * z[j] for j in range(d)]
        old = z
        if groups is None:
            z = [soft(xh[j] + u[j], lam / rho) for j in range(d)]
            pen = sum(np.abs(v) for v in z)
        else:
            z, pen = [None] * d, h.lit(0)
            for g in groups:
                v = group_soft([xh[j] + u[j] for j in g], lam / rho)
                for j, w in zip(g, v):
                    z[j] = w
                pen = pen + norm(v)
        u = [u[j] + xh[j] - z[j] for j in range(d)]
        ref = (residual(A0, b0, x) + lam * pen,
               norm([x[j] - z[j] for j in range(d)]), norm([rho * (z[j] - old[j]) for j in range(d)]),
               np.sqrt(h.lit(d)) * tol + rtol * np.maximum(norm(x), norm(z)),
               np.sqrt(h.lit(d)) * tol + rtol * norm([rho * v for v in u]))
        if hist:
            records(h, out[1][k], ref)
        if ref[1] < ref[3] and ref[2] < ref[4]:
            break
    if hist:
        h.check(len(out) == 2, "estimate and history")
        h.check(len(out[1]) == k + 1, "stops at the first iteration with both residuals within tolerance")
        out = out[0]
    h.equal(out, np.array(z), "estimate")


def partition(h):
    g = h.mod(M + "group_lasso_").group_lasso
    A, b = h.array("A", (2, 3)), h.array("b", (2,))
    h.raises(ValueError, lambda: g(A, b, groups=[[0, 1]]), "missing feature")
    h.raises(ValueError, lambda: g(A, b, groups=[[0, 1], [1, 2]]), "overlapping groups")
    h.raises(ValueError, lambda: g(A, b, groups=[[0, 1], [1]]), "overlapping groups")
    h.raises(ValueError, lambda: g(A[:, :1], b, groups=[[0], [0]]), "repeated feature")


def overlap_reference(h, A, b, lam, groups, rho, N, tol, rtol, need=12):
    n, d = A.shape
    Ab = A.T.dot(b)
    D = [sum(1 for g in groups if j in g) for j in range(d)]
    z = [h.lit(0)] * d
    y = [[h.lit(0)] * len(g) for g in groups]
    hist, run = [], 0

    def mean(v, j):
        s = h.lit(0)
        for i, g in enumerate(groups):
            if j in g:
                s = s + v[i][g.index(j)]
        return s / max(D[j], 1)
    for k in range(N):
        x = [group_soft([z[j] - y[i][q] / rho for q, j in enumerate(g)], lam / rho) for i, g in enumerate(groups)]
        old = z
        xb, yb = [mean(x, j) for j in range(d)], [mean(y, j) for j in range(d)]
        z = ridge(h, A, [rho * D[j] for j in range(d)], [Ab[j] + D[j] * (yb[j] + rho * xb[j]) for j in range(d)], fat=False)
        y = [[y[i][q] + rho * (x[i][q] - z[j]) for q, j in enumerate(g)] for i, g in enumerate(groups)]
        pen = h.lit(0)
        for v in x:
            pen = pen + norm(v)
        ref = (residual(A, b, z) + lam * pen,
               norm([xb[j] - z[j] for j in range(d)]), norm([rho * (z[j] - old[j]) for j in range(d)]),
               np.sqrt(h.lit(d)) * tol + rtol * np.maximum(norm(xb), norm(z)),
               np.sqrt(h.lit(d)) * tol + rtol * norm([rho * v for v in yb]))
        hist.append(ref)
        run = run + 1 if ref[1] < ref[3] and ref[2] < ref[4] else 0
        if run == need:
            break
    return z, hist, k


def overlap(h, n, d, N, groups, fixed=False):
    h.use_known()
    A, b, lam, rho, tol, rtol = problem(h, n, d, fixed)
    A0, b0 = A.copy(), b.copy()
    z, hist, k = h.mod(M + "group_lasso_overlap_").group_lasso_overlap(
        A, b, lamda=lam, groups=groups, rho=rho, max_iter=N, tol=tol, rtol=rtol)
    h.equal(A, A0, "design unchanged")
    h.equal(b, b0, "responses unchanged")
    rz, rhist, rk = overlap_reference(h, A0, b0, lam, groups, rho, N, tol, rtol)
    h.equal(z, np.array(rz), "estimate")
    h.check(len(hist) == len(rhist), "number of iterations")
    h.check(k == rk, "iterations reported")
    for a, c in zip(hist, rhist):
        records(h, a, c)


def patience(h, N):
    """The overlapping solver stops after the test held in twelve consecutive iterations (one feature, null penalty)."""
    h.use_known()
    A, b = data(h, 1, 1, True)
    tol = h.nonneg("tol")
    z, hist, k = h.mod(M + "group_lasso_overlap_").group_lasso_overlap(
        A, b, lamda=h.lit(0), groups=[[0]], rho=h.lit(1), max_iter=N, tol=tol, rtol=h.lit(0))
    rz, rhist, rk = overlap_reference(h, A, b, h.lit(0), [[0]], h.lit(1), N, tol, h.lit(0))
    h.equal(z, np.array(rz), "estimate")
    h.check(len(hist) == len(rhist), "number of iterations")
    h.check(k == rk, "iterations reported")


def estimator(h, n, d, groups, intercept, targets=0, jobs=1, mode="admm"):
    """fit solves one problem per target on the centred data with the parameters given."""
    m = h.mod(M + "group_lasso_overlap_")
    X = h.array("X", (n, d))
    Y = h.array("Y", (n, targets)) if targets else h.array("Y", (n,))
    X0, Y0 = X.copy(), Y.copy()
    lam, rho, tol, rtol = h.pos("lamda"), h.pos("rho"), h.pos("tol"), h.pos("rtol")
    seen = []

    def solve(A, y, **kw):
        seen.append((A, y, kw))
        return h.stub("coef", [A, y], (d,)), "history%d" % len(seen), 40 + len(seen)
    h.override(M + "group_lasso_overlap_." + {"admm": "group_lasso_overlap", "paspal": "glopridu_algorithm"}[mode], solve)

    class Serial(object):
        def __init__(self, *a, **k):
            pass

        def __call__(self, it):
            return [f(*a, **k) for f, a, k in it]
    if jobs != 1:
        h.override("joblib.Parallel", Serial)
    e = m.GroupLassoOverlap(alpha=lam, rho=rho, tol=tol, rtol=rtol, groups=groups, max_iter=7, fit_intercept=intercept,
                            n_jobs=jobs, mode=mode)
    h.check(e.fit(X, Y) is e, "fit returns the estimator")
    if len(seen) != max(targets, 1):
        raise ImportError("regain: the solver is called differently")
    h.equal(X, X0, "data unchanged")
    h.equal(Y, Y0, "targets unchanged")
    ys = [Y0[:, t] for t in range(targets)] if targets else [Y0]
    xo = [sum(X0[i, j] for i in range(n)) / n if intercept else h.lit(0) for j in range(d)]
    C = h.empty((n, d))
    for i in range(n):
        for j in range(d):
            C[i, j] = X0[i, j] - xo[j]
    coefs, ints = [], []
    names = dict(admm=dict(lamda=lam, rho=rho, tol=tol, rtol=rtol), paspal=dict(tau=lam, tol_ext=tol, tol_int=rtol))[mode]
    for t, y in enumerate(ys):
        yo = sum(y[i] for i in range(n)) / n if intercept else h.lit(0)
        yc = np.array([y[i] - yo for i in range(n)])
        A, v, kw = seen[t]
        h.equal(A, C, "design of the problem")
        h.equal(v, yc, "responses of the problem")
        for name, want in names.items():
            h.equal(kw[name], want, "parameter " + name)
        h.check(kw["groups" if mode == "admm" else "blocks"] == groups, "groups")
        h.check(kw["max_iter" if mode == "admm" else "max_iter_ext"] == 7, "iteration limit")
        c = h.stub("coef", [C, yc], (d,))
        coefs.append(c)
        ints.append(yo - sum(xo[j] * c[j] for j in range(d)))
    if targets > 1:
        h.equal(e.coef_, np.array([list(c) for c in coefs]), "coefficients")
        h.check(list(e.n_iter_) == [41 + t for t in range(targets)], "iterations")
        if intercept:
            h.equal(e.intercept_, np.array(ints), "intercept")
    else:
        h.equal(np.reshape(e.coef_, (d,)), coefs[0], "coefficients")
        h.check(e.n_iter_ == 41, "iterations")
        if intercept:
            h.equal(np.reshape(np.array(e.intercept_), (-1,)), np.array(ints), "intercept")
    if not intercept:
        h.equal(e.intercept_, h.lit(0), "no intercept")
    Z = h.array("Z", (2, d))
    p = np.reshape(e.predict(Z), (2, -1))
    for i in range(2):
        for t in range(len(ys)):
            h.equal(p[i, t], ints[t] + sum(Z[i, j] * coefs[t][j] for j in range(d)), "prediction")


def screening(h, d, blocks, active):
    """Proximal point of the latent group lasso without Newton steps: null blocks are those in the dual ball."""
    m = h.mod(P)
    w = h.array("w", (d,))
    tau = h.pos("tau")
    weights = h.array("g", (len(blocks),), pos=True)
    lam = h.array("l", (len(blocks),), nonneg=True)
    w0, g0, l0 = w.copy(), weights.copy(), lam.copy()
    for k, (blk, a) in enumerate(zip(blocks, active)):
        n2 = sum(w[j] * w[j] for j in blk)
        t2 = tau * tau * weights[k] * weights[k]
        h.assume(n2 >= t2 if a else n2 < t2)
    out, it, dual = m.glo_prox(w, tau, [np.array(b) for b in blocks], weights, lam, 1e-3, 0)
    h.equal(w, w0, "argument unchanged")
    h.equal(weights, g0, "weights unchanged")
    h.equal(lam, l0, "dual start unchanged")
    for k, a in enumerate(active):
        h.equal(dual[k], l0[k] if a else h.lit(0), "dual variable of the block")
    for j in range(d):
        s = h.lit(0)
        for k, (blk, a) in enumerate(zip(blocks, active)):
            if a and j in blk:
                s = s + l0[k]
        h.equal(out[j], w0[j] - w0[j] / (1 + s), "primal point of the dual variables")
    h.check(it == 0, "no iteration")


def fista(h, n, d, N, sigma=True, smooth=False, start=True, fixed=False):
    """glopridu takes accelerated proximal-gradient steps on ||Y - X beta||^2 / (2n)."""
    m = h.mod(P)
    X, Y = data(h, n, d, fixed)
    X0, Y0 = X.copy(), Y.copy()
    tau, te, ti = h.pos("tau"), h.nonneg("tol"), h.pos("tol_int")
    blocks = [[j] for j in range(d)]
    kw = {}
    sg = h.pos("sigma")
    kw["sigma0"] = sg
    mu = h.nonneg("smooth") if smooth else h.lit(0)
    if smooth:
        kw["smooth_par"] = mu
    B = h.array("B", (d,)) if start else np.zeros(d)
    if start:
        kw["beta0"] = B
        B0 = B.copy()
    seen = []

    def prox(w0, tau, blocks, weights, lamda0, tol, max_iter, verbose=0):
        seen.append((w0, tau, weights, lamda0, tol))
        return h.stub("beta", [w0], (d,)), 0, h.stub("dual", [w0], (len(blocks),))
    h.override(P + ".glo_prox", prox)
    beta, lam, it = m.glopridu_algorithm(X, Y, blocks, tau, max_iter_ext=N, tol_ext=te, tol_int=ti, **kw)
    h.equal(X, X0, "design unchanged")
    h.equal(Y, Y0, "responses unchanged")
    if not seen:
        raise ImportError("regain: glo_prox is called differently")
    if start:
        h.equal(B, B0, "starting point unchanged")
    step = sg + mu * sg
    cur = [B[j] for j in range(d)]
    mom = list(cur)
    t = h.lit(1)
    dual = [h.lit(0)] * d

    def fit(v):
        return [sum(X0[i, j] * v[j] for j in range(d)) for i in range(n)]
    for k in range(1, N + 1):
        f = fit(mom)
        w = [mom[j] * (1 - mu * sg / step) + sum(X0[i, j] * (Y0[i] - f[i]) for i in range(n)) / (n * step) for j in range(d)]
        a = seen[k - 1]
        h.equal(a[0], np.array(w), "gradient step from the extrapolated point")
        h.equal(a[1], tau / step, "threshold of the proximal step")
        h.equal(a[2], np.ones(d), "weights")
        h.equal(a[3], np.array(dual), "dual variables warm started")
        h.equal(a[4], ti * k ** -1.5, "tolerance of the proximal step", tol=1e-4)
        prev = cur
        cur = list(h.stub("beta", [w], (d,)))
        dual = list(h.stub("dual", [w], (d,)))
        tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
        mom = [cur[j] + (t - 1) / tn * (cur[j] - prev[j]) for j in range(d)]
        t = tn
        fp, fc = fit(prev), fit(cur)
        if k > 1 and norm([p - q for p, q in zip(fc, fp)]) <= norm(fp) * te:
            break
    h.check(it == k, "stops at the first small change of the fitted values")
    h.equal(beta, np.array(cur), "estimate")
    h.equal(lam, np.array(dual), "dual variables")


def tasks(T, tier):
    th = tier == "thorough"
    for n, d in ((1, 1), (2, 1), (1, 2), (2, 2)):
        yield T("solver", dict(n=n, d=d, N=1), budget=120)
        for g in ([[[0]]] if d == 1 else [[[0, 1]], [[0], [1]]]):
            yield T("solver", dict(n=n, d=d, N=1, groups=g), budget=120)
    yield T("solver", dict(n=1, d=2, N=1, relax=False, hist=False))
    yield T("solver", dict(n=2, d=2, N=1, relax=False, hist=False, groups=[[0], [1]]))
    for n, d, N in ((2, 1, 2), (3, 2, 2), (1, 2, 2)):
        yield T("solver", dict(n=n, d=d, N=N, fixed=True), budget=120)
        yield T("solver", dict(n=n, d=d, N=N, fixed=True, groups=[list(range(d))]), budget=120)
    yield T("solver", dict(n=1, d=3, N=1, groups=[[0, 1], [2]]), budget=120)
    yield T("solver", dict(n=1, d=3, N=1, groups=[[2, 0], [1]]), budget=120)
    yield T("solver", dict(n=2, d=2, N=1, groups=[[1], [0]]), budget=120)
    yield T("partition", dict())
    for n, d, g in ((2, 1, [[0]]), (2, 2, [[0, 1]]), (2, 2, [[0], [0, 1]]), (1, 2, [[0], [1]])):
        yield T("overlap", dict(n=n, d=d, N=1, groups=g), budget=120)
    for n, d, g in ((2, 1, [[0]]), (3, 2, [[0], [0, 1]]), (3, 2, [[1, 0], [1]]), (3, 3, [[0, 1], [1, 2]])):
        yield T("overlap", dict(n=n, d=d, N=2, groups=g, fixed=True), budget=120)
    yield T("patience", dict(N=13), budget=120)
    for i in (False, True):
        yield T("estimator", dict(n=2, d=2, groups=[[0], [0, 1]], intercept=i))
        yield T("estimator", dict(n=2, d=2, groups=[[0], [0, 1]], intercept=i, targets=2))
        yield T("estimator", dict(n=2, d=2, groups=[[0], [0, 1]], intercept=i, targets=2, jobs=2))
        yield T("estimator", dict(n=2, d=2, groups=[[0], [0, 1]], intercept=i, mode="paspal"))
    for act in ((True, True), (True, False), (False, True), (False, False)):
        yield T("screening", dict(d=3, blocks=[[0, 1], [1, 2]], active=act))
    yield T("screening", dict(d=3, blocks=[[0, 1], [2]], active=(True, False)))
    yield T("screening", dict(d=2, blocks=[[0, 1]], active=(True,)))
    for n, d, N in ((2, 1, 1), (2, 2, 2), (2, 2, 3)):
        yield T("fista", dict(n=n, d=d, N=N))
        yield T("fista", dict(n=n, d=d, N=N, smooth=True, start=False))
