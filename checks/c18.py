"""C18: neighbourhood (generalised linear model) graphical models."""
import math

import numpy as np

G = "regain.generalized_linear_model."
BOUNDS = ("2 variables and 2..3 samples or 3 variables and 1..2 samples with arbitrary real data, coefficients, penalties and step "
          "sizes; solver runs of 1..2 iterations (thorough: up to 3); Poisson line searches of up to 2 trials per iteration "
          "(thorough: 3) with 2 variables; symmetrisation of any neighbourhoods of 2..3 (thorough: 4) variables")
ASSUMPTIONS = ["sklearn.linear_model.LogisticRegression returns the coefficients of the l1-penalised logistic regression",
               "the internal line search of _fit (line_search=True, used by no estimator) is outside of the claim"]


def soft(x, l):
    return np.sign(x) * np.maximum(np.abs(x) - l, 0)


def others(d, r):
    return [i for i in range(d) if i != r]


def dot(x, th):
    s = 0
    for a, b in zip(x, th):
        s = s + a * b
    return s


def norm(x):
    s = 0
    for v in x:
        s = s + v * v
    return np.sqrt(s)


# -- conditional losses of variable r given the others (average over the samples, additive constants dropped)
def nll(h, kind, X, r, th):
    n, d = X.shape
    s = h.lit(0)
    for i in range(n):
        z = dot([X[i, j] for j in others(d, r)], th)
        if kind == "gaussian":
            s = s + z * z / 2 - X[i, r] * z
        elif kind == "poisson":
            s = s + np.exp(z) - X[i, r] * z
        else:
            s = s + np.log(np.exp(z) + np.exp(-z)) - X[i, r] * z
    return s / n


def grad(h, kind, X, r, th):
    n, d = X.shape
    o = others(d, r)
    out = [h.lit(0) for _ in o]
    for i in range(n):
        z = dot([X[i, j] for j in o], th)
        if kind == "gaussian":
            m = z
        elif kind == "poisson":
            m = np.exp(z)
        else:
            m = (np.exp(z) - np.exp(-z)) / (np.exp(z) + np.exp(-z))
        for k, j in enumerate(o):
            out[k] = out[k] + X[i, j] * (m - X[i, r]) / n
    return out


def derivative(h, kind, d, n):
    """The reference gradient is the derivative of the reference loss (so that the solver harnesses below
    decide the gradient of the documented conditional likelihood)."""
    X = h.array("X", (n, d))
    th = [h.real("th_%d" % j) for j in range(d - 1)]
    g = h.derivs(lambda v: nll(h, kind, X, 0, v), th)
    for a, b in zip(grad(h, kind, X, 0, th), g):
        h.equal(a, b, "derivative", tol=1e-4)


def losses(h, kind, d, n):
    """The losses and objectives in the code are the documented ones."""
    X = h.array("X", (n, d))
    X0 = X.copy()
    alpha = h.nonneg("alpha")
    th = h.symmetric("th", d)
    pen = h.lit(0)
    for i in range(d):
        for j in range(d):
            if i != j:
                pen = pen + np.abs(th[i, j])
    ref = h.lit(0)
    for r in range(d):
        ref = ref + nll(h, kind, X, r, [th[r, j] for j in others(d, r)])
    if kind == "gaussian":
        m = h.mod(G + "glm_gaussian")
        o = others(d, 0)
        t = np.array([th[0, j] for j in o])
        h.equal(m.objective(X, t, n, 0, o, alpha), nll(h, kind, X, 0, t) + alpha * sum(np.abs(v) for v in t), "objective")
    else:
        m = h.mod(G + "glm_" + kind)
        h.equal(m.loss(X, th), ref, "loss")
        h.equal(m.objective(X, th, alpha), ref + alpha * pen, "objective")
    h.equal(X, X0, "data unchanged")


def asymmetric(h, kind):
    """Asymmetric parameters have an infinite symmetric objective."""
    m = h.mod(G + "glm_" + kind)
    X = h.array("X", (1, 2))
    th = h.array("th", (2, 2))
    h.assume(th[0, 1] > th[1, 0])
    h.check(np.isposinf(m.objective(X, th, h.nonneg("alpha"))), "infinite")


def cut(h, trials, runs=1):
    """Bound the Poisson line searches and make their loss an opaque function of the coefficients (its value is
    decided by "losses")."""
    calls = {}

    def loss(X, theta, n, r, selector):
        calls[r] = calls.get(r, 0) + 1
        if h.sym and calls[r] > runs * (3 * trials - 1):
            h.assume(False)
        return f(X, theta, r)

    def f(X, theta, r):
        n, d = X.shape

        def value(flat):
            s = 0.0
            for i in range(n):
                z = sum(flat[i * d + j] * t for j, t in zip(others(d, r), flat[n * d:]))
                s += (math.exp(z) if z < 700 else math.inf) - flat[i * d + r] * z
            return [s / n]
        return h.stub("loss%d" % r, [X, np.array(list(theta))], (), numeric=value)
    h.override(G + "glm_poisson.loss_single_variable", loss)
    return f


def each_variable(h, kind, d, n, N, ix, consensus=False, trials=3):
    m = h.mod(G + "glm_" + kind)
    X = h.array("X", (n, d))
    X0 = X.copy()
    alpha, gamma = h.nonneg("alpha"), h.pos("gamma")
    tol = h.pos("tol")
    kw = dict(gamma=gamma, tol=tol, max_iter=N, return_history=True, return_n_iter=True)
    A = rho = None
    T = 0
    if consensus:
        A, rho, T = h.array("A", (d, d)), h.pos("rho"), 2
        A0 = A.copy()
        kw.update(A=A, T=T, rho=rho)
    if kind == "poisson":
        f = cut(h, trials)
    th, hist, checks, it = m.fit_each_variable(X, ix, alpha, **kw)
    h.equal(X, X0, "data unchanged")
    if consensus:
        h.equal(A, A0, "consensus unchanged")
    o = others(d, ix)
    cur = hist[0]
    for v in cur:
        h.check(np.abs(v) <= 1e-9, "starts at zero")

    def smooth(t):
        s = f(X0, t, ix)
        if consensus:
            s = s + rho * T / 2 * sum((t[k] - A0[ix, j]) * (t[k] - A0[ix, j]) for k, j in enumerate(o))
        return s
    g = gamma
    for k in range(N):
        gr = grad(h, kind, X, ix, cur)
        if consensus:
            gr = [a + rho * T * (cur[q] - A0[ix, j]) for q, (a, j) in enumerate(zip(gr, o))]
        if kind == "poisson":
            while True:
                new = [soft(c - g * q, alpha * g) for c, q in zip(cur, gr)]
                dd = [a - b for a, b in zip(cur, new)]
                if smooth(new) > smooth(cur) - dot(gr, dd) + norm(dd) ** 2 / (2 * g):
                    g = g * 0.5
                else:
                    break
        else:
            new = [soft(c - g * q, alpha * g) for c, q in zip(cur, gr)]
        h.equal(hist[k + 1], np.array(new), "iterate is the proximal-gradient point")
        step = norm([a - b for a, b in zip(cur, new)])
        rec = k if kind != "poisson" else k - 1
        if rec >= 0:
            if k == 0:
                ref = nll(h, kind, X, ix, new) + alpha * sum(np.abs(v) for v in new)
            elif kind == "gaussian":        # decided by "losses"
                ref = m.objective(X, np.array(new), n, ix, o, alpha)
            else:
                ref = m.objective_single_variable(X, np.array(new), n, ix, o, alpha)
            h.equal(checks[rec].obj, ref, "objective of the iterate")
            h.equal(checks[rec].iter_norm, step, "length of the step")
        cur = new
        if rec >= 0 and step < tol:
            break
    h.check(len(hist) == k + 2, "stops at the first step shorter than the tolerance")
    h.equal(th, np.array(cur), "last iterate returned")


def symmetric_fit(h, d, n, N, consensus=False, warm=True, estimator=False):
    m = h.mod(G + "glm_ising")
    X = h.array("X", (n, d))
    X0 = X.copy()
    alpha, gamma, tol = h.nonneg("alpha"), h.pos("gamma"), h.pos("tol")
    A = rho = None
    T = 0
    if estimator:
        e = m.IsingGraphicalModel(alpha=alpha, gamma=gamma, tol=tol, max_iter=N)
        h.check(e.fit(X) is e, "fit returns the estimator")
        th, hist, checks = e.precision_, e.history[0], e.history[1]
        cur = np.zeros((d, d))
        h.equal(e.get_precision(), th, "get_precision")
    else:
        kw = dict(gamma=gamma, tol=tol, max_iter=N, return_history=True)
        if consensus:
            A, rho, T = h.symmetric("A", d), h.pos("rho"), 2
            kw.update(A=A, rho=rho, T=T)
            A0 = A.copy()
        if warm:
            W = h.symmetric("W", d)
            kw["warm_start"] = W
            W0 = W.copy()
        th, hist, checks = m._fit(X, alpha, **kw)
        cur = W0.copy() if warm else np.zeros((d, d))
        if warm:
            h.equal(W, W0, "starting point unchanged")
        if consensus:
            h.equal(A, A0, "consensus unchanged")
    h.equal(X, X0, "data unchanged")
    h.equal(hist[0], cur, "starting point")
    for k in range(N):
        g = np.zeros((d, d))
        for r in range(d):
            for j, v in zip(others(d, r), grad(h, "ising", X, r, [cur[r, q] for q in others(d, r)])):
                g[r, j] = v
        new = np.zeros((d, d))
        for i in range(d):
            for j in range(d):
                v = cur[i, j] - gamma * (g[i, j] + g[j, i]) / 2
                if consensus:
                    v = v - gamma * rho * T * (cur[i, j] - A0[i, j])
                new[i, j] = soft(v, alpha * gamma) if i != j else v
        h.equal(hist[k + 1], new, "iterate is the proximal-gradient point")
        step = norm((new - cur).ravel())
        ref = h.lit(0)
        for r in range(d):
            ref = ref + nll(h, "ising", X, r, [new[r, j] for j in others(d, r)])
            for j in others(d, r):
                ref = ref + alpha * np.abs(new[r, j])
        h.equal(checks[k].obj, ref, "objective of the iterate")
        h.equal(checks[k].iter_norm, step, "length of the step")
        cur = new
        if step < tol:
            break
    h.check(len(hist) == k + 2, "stops at the first step shorter than the tolerance")
    h.equal(th, cur, "last iterate returned")
    h.equal(th, th.T, "symmetric")


def join(h, N, how):
    d = len(N)
    out = np.zeros((d, d))
    for i in range(d):
        for j in range(d):
            if i == j:
                out[i, j] = 1
                continue
            a, b = N[i][others(d, i).index(j)], N[j][others(d, j).index(i)]
            if how == "intersection" and (a == 0 or b == 0):
                out[i, j] = 0
            else:
                out[i, j] = (a + b) / 2
    return out


def adjacency(h, d, how, case=None):
    m = h.mod(G + "base")
    N = [h.array("N%d" % i, (d - 1,)) for i in range(d)]
    keep = [v.copy() for v in N]
    out = m.build_adjacency_matrix(N, how=how)
    for a, b in zip(N, keep):
        h.equal(a, b, "neighbourhoods unchanged")
    h.equal(out, join(h, keep, how.lower()), "both estimates of an edge are averaged onto it")
    h.equal(out, out.T, "symmetric")


def estimator(h, kind, d, n, N, how, intercept=False, trials=2):
    """fit solves one regression per variable with the estimator's parameters and joins the neighbourhoods."""
    m = h.mod(G + "glm_" + kind)
    X = h.array("X", (n, d))
    X0 = X.copy()
    alpha, gamma, tol = h.nonneg("alpha"), h.pos("gamma"), h.pos("tol")
    if kind == "poisson":
        cut(h, trials, 2)
    if kind == "gaussian":
        e = m.Gaussian_GLM_GM(alpha=alpha, tol=tol, max_iter=N, reconstruction=how)
        h.check(e.fit(X, gamma=gamma) is e, "fit returns the estimator")
    else:
        e = m.PoissonGraphicalModel(alpha=alpha, tol=tol, gamma=gamma, max_iter=N, reconstruction=how, intercept=intercept)
        h.check(e.fit(X) is e, "fit returns the estimator")
    h.equal(X, X0, "data unchanged")
    Y = X0
    if intercept:
        Y = np.ones((n, d + 1))
        Y[:, :d] = X0
    nb = []
    for ix in range(Y.shape[1]):
        nb.append(m.fit_each_variable(Y, ix, alpha, gamma=gamma, tol=tol, max_iter=N)[0])
    h.equal(e.precision_, join(h, nb, how), "joined neighbourhoods")
    h.equal(e.get_precision(), e.precision_, "get_precision")


def logistic(h, d, n, how):
    m = h.mod(G + "glm_ising")
    X = h.array("X", (n, d))
    X0 = X.copy()
    alpha = h.pos("alpha")
    seen = []

    class Fake(object):
        def __init__(self, **kw):
            self.kw = kw

        def fit(self, A, y):
            seen.append((self.kw, A, y))
            self.coef_ = h.stub("coef%d" % len(seen), [A, y], (1, d - 1))
            return self
    h.override(G + "glm_ising.LogisticRegression", Fake)
    e = m.IsingGraphicalModel(alpha=alpha, mode="logistic_regression", reconstruction=how).fit(X)
    if len(seen) != d:
        raise ImportError("regain: LogisticRegression is used differently")
    h.equal(X, X0, "data unchanged")
    nb = []
    for r in range(d):
        kw, A, y = seen[r]
        h.equal(kw["C"], 1 / alpha, "inverse of the penalty")
        h.check(kw["penalty"] == "l1", "l1 penalty")
        h.equal(A, X0[:, others(d, r)], "regressors are the other variables")
        h.equal(y, X0[:, r], "response")
        nb.append(h.stub("coef%d" % (r + 1), [A, y], (1, d - 1))[0])
    h.equal(e.precision_, join(h, nb, how), "joined neighbourhoods")


def modes(h):
    X = h.array("X", (2, 2))
    i, p = h.mod(G + "glm_ising"), h.mod(G + "glm_poisson")
    h.raises(ValueError, lambda: i.IsingGraphicalModel(mode="other").fit(X), "unknown mode")
    h.raises(ValueError, lambda: i.IsingGraphicalModel(mode="coordinate_descent").fit(X), "mode not implemented")
    h.raises(ValueError, lambda: p.PoissonGraphicalModel(mode="other").fit(X), "unknown mode")
    h.raises(ValueError, lambda: p.PoissonGraphicalModel(mode="symmetric_fbs").fit(X), "mode not implemented")


def tasks(T, tier):
    th = tier == "thorough"
    for kind in ("gaussian", "ising", "poisson"):
        for d, n in ((2, 2), (3, 2)):
            yield T("derivative", dict(kind=kind, d=d, n=n))
            yield T("losses", dict(kind=kind, d=d, n=n))
    for kind in ("ising", "poisson"):
        yield T("asymmetric", dict(kind=kind))
    for d, n, N in ((2, 2, 1), (2, 2, 2), (3, 2, 1), (3, 1, 2)) + (((2, 3, 3), (3, 2, 2)) if th else ()):
        for ix in range(d) if N == 1 else (0,):
            yield T("each_variable", dict(kind="gaussian", d=d, n=n, N=N, ix=ix), paths=800, budget=200)
    for c in (False, True):
        for d, n, N in ((2, 2, 1), (2, 1, 2), (3, 1, 1)) + (((2, 2, 2), (3, 2, 1)) if th else ()):
            yield T("each_variable", dict(kind="poisson", d=d, n=n, N=N, ix=0, consensus=c), paths=60, budget=200)
        yield T("each_variable", dict(kind="poisson", d=3, n=1, N=1, ix=1, consensus=c), paths=60, budget=200)
        for d, n, N, w in ((2, 2, 1, True), (2, 3, 1, True), (2, 2, 2, False), (3, 2, 1, True)) + \
                (((2, 2, 2, True), (3, 1, 2, False)) if th else ()):
            yield T("symmetric_fit", dict(d=d, n=n, N=N, consensus=c, warm=w), paths=600, budget=200)
    yield T("symmetric_fit", dict(d=2, n=2, N=1, estimator=True))
    yield T("symmetric_fit", dict(d=2, n=2, N=2, estimator=True))
    for how in ("union", "intersection", "Union", "INTERSECTION"):
        yield T("adjacency", dict(d=2, how=how))
        yield T("adjacency", dict(d=3, how=how), paths=200)
    for how in ("union", "intersection"):
        yield T("estimator", dict(kind="gaussian", d=2, n=2, N=1, how=how))
        yield T("estimator", dict(kind="gaussian", d=2, n=1, N=2, how=how), budget=200)
        yield T("estimator", dict(kind="poisson", d=2, n=1, N=1, how=how), paths=100, budget=200)
        yield T("logistic", dict(d=3, n=2, how=how), paths=200)
    yield T("estimator", dict(kind="poisson", d=1, n=1, N=1, how="union", intercept=True), paths=100, budget=200)
    yield T("modes", dict())
