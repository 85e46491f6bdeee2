"""C16: missing-data graphical lasso."""
import numpy as np

MOD = "regain.covariance.missing_graphical_lasso_"
BOUNDS = ("2..3 samples of 2..3 variables with arbitrary real observed values, every pattern of missing entries with at least "
          "one observed entry per row (thorough; quick: a covering selection); any mean, any positive definite precision, any "
          "alpha, rho, over-relaxation, tol, rtol; 1..2 EM iterations")
ASSUMPTIONS = ["the graphical lasso called in each M step is the public one of the same tree (decided by C05)",
               "imputed values are rescaled by one common factor so that none exceeds 1 in magnitude, and the covariance by its "
               "largest entry, as the code base does"]


def data(h, pattern):
    """Data matrix: 'x' observed, '-' missing."""
    X = np.zeros((len(pattern), len(pattern[0])))
    for i, row in enumerate(pattern):
        for j, c in enumerate(row):
            X[i, j] = h.real("X_%d_%d" % (i, j)) if c == "x" else float("nan")
    return X


def split(row):
    return [j for j, c in enumerate(row) if c == "-"], [j for j, c in enumerate(row) if c == "x"]


def solve(A, b):
    """A^{-1} b by cofactors (sizes 1 and 2)."""
    if len(b) == 1:
        return [b[0] / A[0][0]]
    det = A[0][0] * A[1][1] - A[0][1] * A[1][0]
    return [(A[1][1] * b[0] - A[0][1] * b[1]) / det, (A[0][0] * b[1] - A[1][0] * b[0]) / det]


def inverse(A):
    n = len(A)
    cols = [solve(A, [1 if i == j else 0 for i in range(n)]) for j in range(n)]
    return [[cols[j][i] for j in range(n)] for i in range(n)]


def ref_expectation(h, pattern, X, mu, K):
    c = np.zeros(X.shape)
    for i, row in enumerate(pattern):
        m, o = split(row)
        if not m:
            continue
        rhs = [sum([K[a, b] * (X[i, b] - mu[b]) for b in o], h.lit(0)) for a in m]
        s = solve([[K[a, b] for b in m] for a in m], rhs)
        for a, v in zip(m, s):
            c[i, a] = mu[a] - v
    big = np.maximum(np.max(np.abs(c)), h.lit(1))
    return c / big


def ref_complete(pattern, X, c):
    Y = np.zeros(X.shape)
    for i, row in enumerate(pattern):
        for j, ch in enumerate(row):
            Y[i, j] = X[i, j] if ch == "x" else c[i, j]
    return Y


def ref_cov(h, pattern, Y, K):
    d = Y.shape[1]
    S = np.zeros((d, d))
    for i, row in enumerate(pattern):
        m, _ = split(row)
        for a in range(d):
            for b in range(d):
                S[a, b] = S[a, b] + Y[i, a] * Y[i, b]
        if m:
            C = inverse([[K[a, b] for b in m] for a in m])
            for p, a in enumerate(m):
                for q, b in enumerate(m):
                    S[a, b] = S[a, b] + C[p][q]
    return S / np.max(S)


def steps(h, pattern):
    """The E-step pieces for an arbitrary mean and precision."""
    m = h.mod(MOD)
    X = data(h, pattern)
    d = X.shape[1]
    K = h.spd("K", d)
    mu = h.array("mu", (d,))
    for row in pattern:
        m_, _ = split(row)
        if len(m_) == 2:        # holds for every positive definite K; stated for the solver
            a, b = m_
            h.assume(K[a, a] * K[b, b] - K[a, b] * K[b, a] > 0)
    keep = [X.copy(), K.copy(), mu.copy()]
    c = m.compute_cs(mu, K, X)
    rc = ref_expectation(h, pattern, X, mu, K)
    h.equal(c, rc, "conditional expectation of the missing entries")
    Y = ref_complete(pattern, X, rc)
    h.equal(m.compute_mean(X, c), np.array([sum([Y[i, j] for i in range(len(pattern))], h.lit(0)) / len(pattern)
                                            for j in range(d)]), "mean of the completed data")
    h.equal(m.compute_empirical_covariance(X, K, c), ref_cov(h, pattern, Y, K), "covariance of the completed data")
    for a, b, n in zip((X, K, mu), keep, ("data", "precision", "mean")):
        h.equal(a, b, n + " unchanged")


class Stub(object):
    """An arbitrary function of everything the M step is given (same arguments, same result)."""

    def __init__(self, h, d):
        self.h, self.d, self.calls = h, d, 0

    def __call__(self, emp_cov, alpha=0.01, rho=1, over_relax=1, max_iter=100, verbose=False, tol=1e-4, rtol=1e-4,
                 return_history=False, return_n_iter=True, update_rho_options=None, compute_objective=True,
                 init="empirical"):
        h, d = self.h, self.d
        self.calls += 1
        args = [emp_cov, alpha, rho, over_relax, h.lit(max_iter), tol, rtol, init]
        v = h.stub("mstep", args, (d * (d + 1) // 2,), pos=True)
        K = np.zeros((d, d))
        k = 0
        for i in range(d):
            for j in range(i + 1):
                K[i, j] = K[j, i] = v[k] / (1 if i == j else 4 * d) + (1 if i == j else 0)
                k += 1
        if d == 2:
            h.assume(K[0, 0] * K[1, 1] - K[0, 1] * K[1, 0] > 0)
            h.use_known()
        return K, emp_cov


def run(h, pattern, N=1, est=False, relax=True, stub=False):
    m = h.mod(MOD)
    if stub:
        gl = Stub(h, len(pattern[0]))
        h.override(MOD + ".graphical_lasso", gl)
    else:
        gl = h.mod("regain.covariance.graphical_lasso_").graphical_lasso
    logl = h.mod("regain.covariance.graphical_lasso_").logl
    X = data(h, pattern)
    X0 = X.copy()
    n, d = X.shape
    kw = dict(alpha=h.nonneg("alpha"), rho=h.pos("rho"), max_iter=N, tol=h.pos("tol"), rtol=h.pos("rtol"),
              over_relax=h.real("over") if relax else h.lit(1), update_rho_options=dict(mu=float("inf")))
    h.reset_warnings()
    if est:
        e = m.MissingGraphicalLasso(**kw)
        h.check(e.fit(X) is e, "fit returns the estimator")
        K, S, full, it = e.precision_, e.covariance_, e.complete_data_matrix_, e.n_iter_
        hist = None
    else:
        K, S, full, hist, it = m.missing_graphical_lasso(X, return_history=True, return_n_iter=True, **kw)
    if stub and not gl.calls:
        raise ImportError("regain: the M step does not go through %s.graphical_lasso" % MOD)
    warned = [w for w in h.warned() if "Missing" in w and "converge" in w]
    h.equal(X, X0, "data unchanged")
    rK, mu, old = np.eye(d), np.zeros(d), None
    conv = False
    for k in range(N):
        c = ref_expectation(h, pattern, X0, mu, rK)
        Y = ref_complete(pattern, X0, c)
        mu = [sum([Y[i, j] for i in range(n)], h.lit(0)) / n for j in range(d)]
        rS = ref_cov(h, pattern, Y, rK)
        rK, _ = gl(rS, init=rK, compute_objective=False, return_n_iter=False, return_history=False, **kw)
        ll = logl(rS, rK)
        if hist is not None and k < len(hist):
            h.check(not callable(hist[k]["log_likelihood"]), "log-likelihood of step %d is a number" % k)
            h.equal(hist[k]["log_likelihood"], ll, "log-likelihood of step %d" % k)
        if old is not None and np.abs(old - ll) < kw["tol"]:
            conv = True
            break
        old = ll
    h.equal(K, rK, "precision")
    h.equal(S, rS, "covariance of the completed data")
    h.equal(full, Y, "completed data: observed entries kept, missing ones imputed")
    h.equal(it, k, "index of the last iteration")
    h.check((len(warned) > 0) == (not conv), "warning iff not converged")


def complete(h, n=2, d=2):
    """Without missing entries the completed data are the data."""
    X = h.array("X", (n, d))
    m = h.mod(MOD)
    out = m.missing_graphical_lasso(X, max_iter=1, alpha=h.nonneg("alpha"), return_n_iter=False)
    h.equal(out[2], X, "data kept")


def tasks(T, tier):
    pats = [("x-", "-x"), ("x-", "xx"), ("xx", "xx"), ("x--", "-xx"), ("-x-", "x-x", "xxx"), ("--x", "x--")]
    if tier == "thorough":
        pats += [("--", "xx"), ("x-", "x-"), ("--x", "-x-", "x--"), ("xx-", "xx-"), ("-x-", "-x-"), ("-xx", "x-x", "xx-"),
                 ("x-", "-x", "xx"), ("x---", "--xx") if False else ("xx-", "--x", "-x-")]
    for p in pats:
        yield T("steps", dict(pattern=p))
    yield T("run", dict(pattern=("x-", "xx")))
    yield T("run", dict(pattern=("x-", "-x")))
    yield T("run", dict(pattern=("x-", "xx"), est=True))
    yield T("run", dict(pattern=("x-", "xx"), N=2, stub=True))
    yield T("run", dict(pattern=("x-", "-x"), N=3, stub=True))
    yield T("run", dict(pattern=("x-x", "-xx"), N=2, stub=True))
    yield T("run", dict(pattern=("x-", "-x"), N=2, stub=True, est=True))
    yield T("complete", dict())
    if tier == "thorough":
        yield T("run", dict(pattern=("x-x", "-x-", "xxx"), N=3, stub=True), budget=600)
        yield T("run", dict(pattern=("x-", "-x", "xx")))
        yield T("run", dict(pattern=("x-x", "-xx")))
        yield T("complete", dict(n=3, d=3))
