"""C28: Bayesian distributions, conjugate updates and G-Wishart scores."""
import numpy as np
from draws import Draws

W = "regain.bayesian.wishart_distribution_"
ST = "regain.bayesian.stats"
LA = "regain.bayesian._laplace_approximation"
GW = "regain.bayesian.gwishart_inference"
MVT = "statsmodels.sandbox.distributions.mv_normal.MVT"
BOUNDS = ("1..3 variables (G-Wishart scores: 2), 1..3 samples, arbitrary real data, priors, scales and degrees of freedom; symmetric "
          "positive definite scale matrices; every graph over 2 and 3 variables for the graph utilities; 1..2 time points")
ASSUMPTIONS = ["gamma functions are opaque; scipy's wishart/invwishart generators return arbitrary positive definite matrices and "
               "their parameters are recorded", "scipy's normal log density is its closed form (positive definite covariances)",
               "singular value decompositions of positive definite matrices are spectral decompositions",
               "scipy.optimize.minimize and LassoLars are outside (their arguments are checked)"]


def det(K):
    d = K.shape[0]
    if d == 1:
        return K[0, 0]
    if d == 2:
        return K[0, 0] * K[1, 1] - K[0, 1] * K[1, 0]
    return sum([(-1) ** j * K[0, j] * det(K[1:][:, [k for k in range(d) if k != j]]) for j in range(1, d)],
               K[0, 0] * det(K[1:, 1:]))


def inverse(K):
    d = K.shape[0]
    D = det(K)
    out = np.zeros((d, d)) if K.dtype == float else np.zeros_like(K)
    for i in range(d):
        for j in range(d):
            keep_r, keep_c = [r for r in range(d) if r != j], [c for c in range(d) if c != i]
            out[i, j] = ((-1) ** (i + j) * det(K[keep_r][:, keep_c]) if d > 1 else 1) / D
    return out


def trace(h, A, B):
    d = A.shape[0]
    return sum([A[i, j] * B[j, i] for i in range(d) for j in range(d)], h.lit(0))


def logdet_spd(h, name, d):
    """A positive definite matrix with its log determinant (from its Cholesky factor)."""
    L = h.empty((d, d))
    ld = h.lit(0)
    for i in range(d):
        for j in range(i):
            L[i, j] = h.real("%s_%d_%d" % (name, i, j))
        L[i, i] = h.pos("%s_%d_%d" % (name, i, i))
        ld = ld + 2 * np.log(L[i, i])
    return h.matmul(L, L.T), ld


def multigammaln(h, a, d):
    return h.mod(W).multigammaln(a, d)


def wishart(h, d):
    m = h.mod(W)
    h.exact_inverse()
    S, ldS = logdet_spd(h, "S", d)
    X, ldX = logdet_spd(h, "X", d)
    nu = h.pos("nu")
    h.assume(nu > d - 1)
    S0, X0 = S.copy(), X.copy()
    w = m.WishartDistribution(nu, S)
    h.equal(w.mean, nu * S0, "mean of the Wishart distribution")
    if nu > d + 1:
        h.equal(w.mode, (nu - d - 1) * S0, "mode of the Wishart distribution")
    c = nu * d * np.log(2) / 2 + multigammaln(h, 0.5 * nu, d)
    want = ((nu - d - 1) * ldX - trace(h, inverse(S0), X0) - nu * ldS) / 2 - c
    h.equal(w.log_likelihood(X), want, "log density of the Wishart distribution")
    h.equal(w.likelihood(X), np.exp(want), "density of the Wishart distribution")
    v = m.InverseWishartDistribution(nu, S)
    if nu > d + 1:
        h.equal(v.mean, S0 / (nu - d - 1), "mean of the inverse Wishart distribution")
    h.equal(v.mode, S0 / (nu + d + 1), "mode of the inverse Wishart distribution")
    want = (nu * ldS - trace(h, S0, inverse(X0)) - (nu + d + 1) * ldX) / 2 - c
    h.equal(v.log_likelihood(X), want, "log density of the inverse Wishart distribution")
    h.equal(v.likelihood(X), np.exp(want), "density of the inverse Wishart distribution")
    h.equal(S, S0, "scale unchanged")
    h.equal(X, X0, "argument unchanged")


def niw(h, d, density=False):
    """Density, mode and marginals of the normal-inverse-Wishart."""
    calls = []

    def mvt(mean, sigma, df):
        calls.append((mean, sigma, df))
        return calls[-1]
    h.override(MVT, mvt)
    h.exact_inverse()
    m = h.mod(W)
    S, ldS = logdet_spd(h, "S", d)
    X, ldX = logdet_spd(h, "X", d)
    mu, x = h.array("mu", (d,)), h.array("x", (d,))
    kappa, nu = h.pos("kappa"), h.pos("nu")
    h.assume(nu > d + 1)
    S0, X0, mu0 = S.copy(), X.copy(), mu.copy()
    p = m.NormalInverseWishartDistribution(mu, kappa, nu, S)
    a, b = p.mode
    h.equal(a, mu0, "mode of the mean")
    h.equal(b, S0 / (nu + d + 2), "mode of the covariance")
    if density:
        K = inverse(X0)
        q = sum([(x[i] - mu0[i]) * K[i, j] * (x[j] - mu0[j]) for i in range(d) for j in range(d)], h.lit(0))
        want = (nu * ldS - trace(h, S0, K) - (nu + d + 1) * ldX) / 2 - nu * d * np.log(2) / 2 - multigammaln(h, 0.5 * nu, d)
        want = want - (d * h.log2pi() + ldX - d * np.log(kappa) + kappa * q) / 2
        h.equal(p.log_likelihood(x, X), want, "log density of the normal-inverse-Wishart")
        return
    s, v = p.marginals
    if len(calls) != 1 or s is not calls[0]:
        raise ImportError("regain: the marginal is not a multivariate t of statsmodels")
    mean, sigma, df = calls[0]
    h.equal(df, nu - d + 1, "degrees of freedom of the marginal of the mean")
    h.equal(mean, mu0, "location of the marginal of the mean")
    h.equal(sigma, S0 / (kappa * (nu - d + 1)), "scale of the marginal of the mean")
    h.equal(v.nu, nu, "degrees of freedom of the marginal of the covariance")
    h.equal(v.S, S0, "scale of the marginal of the covariance")
    h.check(type(v) is m.InverseWishartDistribution, "marginal of the covariance is inverse Wishart")
    del calls[:]
    r = p.predictive()
    if len(calls) != 1 or r is not calls[0]:
        raise ImportError("regain: the predictive is not a multivariate t of statsmodels")
    mean, sigma, df = r
    h.equal(df, nu - d + 1, "degrees of freedom of the predictive")
    h.equal(mean, mu0, "location of the predictive")
    h.equal(sigma, S0 * (kappa + 1) / (kappa * (nu - d + 1)), "scale of the predictive")
    h.equal(S, S0, "scale unchanged")
    h.equal(mu, mu0, "mean unchanged")


def posterior(h, d, n):
    """Batch update == one sample at a time == the closed form with the centred scatter."""
    m = h.mod(W)
    S = h.symmetric("S", d)
    mu, X = h.array("mu", (d,)), h.array("X", (n, d))
    kappa, nu = h.pos("kappa"), h.pos("nu")
    S0, X0, mu0 = S.copy(), X.copy(), mu.copy()
    p = m.NormalInverseWishartDistribution(mu, kappa, nu, S)
    q = p.posterior(X)
    h.check(isinstance(q, m.NormalInverseWishartDistribution), "posterior is normal-inverse-Wishart")
    mean = np.zeros(d) if not h.sym else h.empty((d,))
    for j in range(d):
        for i in range(n):
            mean[j] = mean[j] + X0[i, j] / n
    h.equal(q.kappa, kappa + n, "strength of the mean")
    h.equal(q.nu, nu + n, "degrees of freedom")
    h.equal(q.mu, (kappa * mu0 + n * mean) / (kappa + n), "posterior mean")
    Sn = S0.copy()
    for a in range(d):
        for b in range(d):
            Sn[a, b] = Sn[a, b] + sum([(X0[i, a] - mean[a]) * (X0[i, b] - mean[b]) for i in range(n)], h.lit(0)) \
                + kappa * n / (kappa + n) * (mean[a] - mu0[a]) * (mean[b] - mu0[b])
    h.equal(q.S, Sn, "posterior scale: prior plus centred scatter plus shrinkage of the mean")
    r = p
    for i in range(n):
        r = r.posterior(X[i:i + 1])
    h.equal(r.kappa, q.kappa, "strength: sequential updates")
    h.equal(r.nu, q.nu, "degrees of freedom: sequential updates")
    h.equal(r.mu, q.mu, "mean: sequential updates")
    h.equal(r.S, q.S, "scale: sequential updates")
    for nm, u, v in (("scale", S, S0), ("data", X, X0), ("mean", mu, mu0), ("prior scale", p.S, S0), ("prior mean", p.mu, mu0)):
        h.equal(u, v, nm + " unchanged")
    h.equal(p.kappa, kappa, "prior strength unchanged")
    h.equal(p.nu, nu, "prior degrees of freedom unchanged")


def samples(h, d, n):
    m = h.mod(W)
    calls = []

    class Gen(object):
        def __init__(self, k):
            self.k = k

        def rvs(self, df, scale, size=1, **kw):
            size = int(size)
            out = h.empty((size, d, d))
            for i in range(size):
                out[i] = h.spd("%s%d_%d" % (self.k, len(calls), i), d)
            calls.append((self.k, df, scale, out.copy()))
            return out[0] if size == 1 else out
    h.override("scipy.stats.wishart", Gen("W"))
    h.override("scipy.stats.invwishart", Gen("V"))
    m.stats.wishart, m.stats.invwishart = Gen("W"), Gen("V")
    D = Draws(h)
    S, _ = logdet_spd(h, "S", d)
    mu, kappa, nu = h.array("mu", (d,)), h.pos("kappa"), h.pos("nu")
    h.assume(nu > d + 1)
    for k, cls in (("W", m.WishartDistribution), ("V", m.InverseWishartDistribution)):
        got = cls(nu, S).sample(n)
        if len(calls) != 1:
            raise ImportError("regain: scipy generators are used differently")
        kind, df, scale, out = calls.pop()
        h.check(kind == k, "the generator of the distribution is used")
        h.equal(df, nu, "degrees of freedom of the samples")
        h.equal(scale, S, "scale of the samples")
        h.equal(got, out[0] if n == 1 else out, "samples as drawn")
    got = m.NormalInverseWishartDistribution(mu, kappa, nu, S).sample(n)
    if len(calls) != 1 or len(D.normals) != n:
        raise ImportError("regain: generators are used differently")
    kind, df, scale, out = calls.pop()
    h.check(kind == "V", "covariances are inverse Wishart")
    h.equal(df, nu, "degrees of freedom of the covariances")
    h.equal(scale, S, "scale of the covariances")
    got = [got] if n == 1 else got
    h.check(len(got) == n, "one pair per sample")
    for i in range(n):
        mean, cov, x = D.normals[i]
        h.equal(mean, mu, "mean of the means")
        h.equal(cov, out[i] / kappa, "covariance of mean %d is its own sampled covariance over kappa" % i)
        h.equal(got[i][0], x, "sampled mean")
        h.equal(got[i][1], out[i], "sampled covariance")


def lognormal(h):
    m = h.mod(ST)
    w, mu, sigma = h.pos("x"), h.real("mu"), h.pos("sigma")
    x = w
    z = (np.log(w) - mu) / sigma
    h.equal(m.lognormal_logpdf(x, mu, sigma), -z * z / 2 - np.log(w) - np.log(sigma) - h.log2pi() / 2, "lognormal log density")
    h.equal(m.lognormal_pdf(x, mu, sigma), np.exp(-z * z / 2) / (w * sigma * np.sqrt(2 * np.pi)), "lognormal density")


def lognstat(h):
    """The returned parameters have the given mean and variance."""
    m = h.mod(ST)
    mean = h.pos("mean")
    var = h.pos("v")
    h.assume(np.log(var / (mean * mean) + 1) > 0)
    mu, sigma = m.lognstat(mean, var)
    s2 = sigma * sigma
    h.equal(2 * mu + s2, 2 * np.log(mean), "mean of the lognormal distribution")
    h.equal(np.exp(s2) - 1, var / (mean * mean), "variance of the lognormal distribution")
    h.check(sigma >= 0, "standard deviation is not negative")


def frob(h, shape):
    m = h.mod(ST)
    S, D, v = h.array("S", shape), h.array("D", shape), h.pos("v")
    q = sum([(S[ix] - D[ix]) ** 2 for ix in np.ndindex(*shape)], h.lit(0))
    n = int(np.prod(shape))
    h.equal(m.log_lik_frob(S, D, v), -(n * (h.log2pi() + np.log(v)) + q / v) / 2, "Frobenius log likelihood")


def tnormal(h, d, n, T):
    m = h.mod(ST)
    X = h.array("X", (T, n, d))
    C = h.empty((d, d, T))
    want = h.lit(0)
    for t in range(T):
        S, ld = logdet_spd(h, "C%d" % t, d)
        C[:, :, t] = S
        K = inverse(S)
        for i in range(n):
            q = sum([X[t, i, a] * K[a, b] * X[t, i, b] for a in range(d) for b in range(d)], h.lit(0))
            want = want - (q + ld + d * h.log2pi()) / 2
    h.use_known()
    X0, C0 = X.copy(), C.copy()
    h.equal(m.t_mvn_logpdf(X, C), want, "log likelihood summed over times and samples")
    h.equal(X, X0, "data unchanged")
    h.equal(C, C0, "covariances unchanged")


def sym_entries(h, name, d):
    names = [(i, j) for i in range(d) for j in range(i + 1)]
    return names, [h.real("%s_%d_%d" % (name, i, j)) for i, j in names]


def fill(h, d, names, vals):
    K = h.empty((d, d))
    for (i, j), v in zip(names, vals):
        K[i, j] = K[j, i] = v
    return K


def laplace_h(h, d):
    """h and its derivative with respect to the distinct entries of the precision."""
    m = h.mod(LA)
    D = h.symmetric("D", d)
    names, vals = sym_entries(h, "K", d)
    delta = h.real("delta")
    K = fill(h, d, names, vals)
    if d == 2:
        h.assume(K[0, 0] > 0)
        h.assume(K[1, 1] > 0)
    h.assume(det(K) > 0)
    h.use_known()
    h.exact_inverse()
    f = lambda v: (-(trace(h, fill(h, d, names, v), D)) + (delta - 2) * np.linalg.slogdet(fill(h, d, names, v))[1]) / 2
    h.equal(m.h(D, K, delta), f(vals), "log of the G-Wishart kernel")
    g = h.derivs(f, vals)
    got = m.first_derivative_h_version2(D, K, delta)
    raw = m.first_derivative_h(D, K, delta)
    for (i, j), v in zip(names, g):
        h.equal(got[i, j], v, "derivative with respect to entry %d,%d" % (i, j), tol=1e-4)
        h.equal(got[j, i], v, "derivative with respect to entry %d,%d" % (j, i), tol=1e-4)
        h.equal(raw[i, j], v if i == j else v / 2, "matrix derivative %d,%d" % (i, j), tol=1e-4)


def rotation(h):
    c = h.real("c")
    h.assume(c * c < 1)
    s = np.sqrt(1 - c * c)
    Q = h.empty((2, 2))
    Q[0, 0], Q[0, 1], Q[1, 0], Q[1, 1] = c, -s, s, c
    return Q


def spectral(h):
    """P = Q diag(w) Q' (2 x 2) with its inverse; singular value decompositions of P are this one."""
    Q = rotation(h)
    w = [h.pos("w0"), h.pos("w1")]
    h.assume(w[0] > w[1])
    P, K = h.empty((2, 2)), h.empty((2, 2))
    for i in range(2):
        for j in range(2):
            P[i, j] = sum([Q[i, k] * w[k] * Q[j, k] for k in range(2)], h.lit(0))
            K[i, j] = sum([Q[i, k] / w[k] * Q[j, k] for k in range(2)], h.lit(0))
    sv = h.empty((2,))
    sv[0], sv[1] = w
    if h.sym:
        real = h.mod(GW).linalg.svd

        def svd(a, *r, **k):
            if a.shape == (2, 2) and bool(np.all(a == P)) and not r and not k:
                return Q.copy(), sv.copy(), Q.T.copy()
            return real(a, *r, **k)
        h.override("scipy.linalg.svd", svd)
    return P, K, np.log(w[0]) + np.log(w[1])


def hessian(h, K, V, scale):
    """-d2/dV2 of the log kernel with basis matrices E_ij + E_ji (also on the diagonal)."""
    n = len(V)
    H = h.empty((n, n))
    for a in range(n):
        for b in range(n):
            (i, j), (l, m) = V[a], V[b]
            # tr(K (E_ij + E_ji) K (E_lm + E_ml))
            H[a, b] = scale * (K[m, i] * K[j, l] + K[l, i] * K[j, m] + K[m, j] * K[i, l] + K[l, j] * K[i, m])
    return H


def hessian2(h, d):
    m = h.mod(LA)
    P, K, _ = spectral(h)
    delta = h.real("delta")
    h.exact_inverse()
    for e in P.ravel():
        bool(e != 0)
    h.use_known()
    got = m.second_derivative_h_version2(np.eye(2), P, delta)
    edge = bool(P[0, 1] != 0)
    V = [(0, 0), (0, 1), (1, 1)] if edge else [(0, 0), (1, 1)]
    h.equal(got, -hessian(h, K, V, (delta - 2) / 2), "second derivative of the log kernel on its graph")


def score(h, edge, n, method):
    m = h.mod(GW)
    P, K, ld = spectral(h)
    X = h.array("X", (n, 2))
    S, S0 = h.symmetric("S", 2), h.symmetric("S0", 2)
    d0 = h.real("d0")
    h.assume(d0 > 2)
    prior = h.real("prior")
    G = np.eye(2, dtype=bool)
    G[0, 1] = edge
    Z0, Z1, Z2 = X.copy(), S.copy(), P.copy()
    h.use_known()
    r = m.compute_score(X, G, P, S, m.Bunch(d0=d0, S0=S0, lognormconst=prior, lognormconstDiag=0), method)
    dof = 2 + int(edge)
    h.equal(r.dof, dof, "number of free parameters")
    h.equal(r.num_edges, int(edge), "number of edges")
    h.equal(r.dn, d0 + n, "posterior degrees of freedom")
    h.equal(r.Sn, S + S0, "posterior scatter")
    h.equal(r.P, Z2, "precision of the score")
    h.equal(r.logdetP, ld, "log determinant")
    ll = (n * (ld - 2 * h.log2pi()) - trace(h, S, Z2)) / 2 if n else h.lit(0)
    h.equal(r.loglik, ll, "log likelihood")
    if method == "bic":
        h.equal(r.score, ll - dof * np.log(n) / 2, "BIC score")
    else:
        V = [(0, 0), (0, 1), (1, 1)] if edge else [(0, 0), (1, 1)]
        s = (d0 + n - 2) / 2
        H = hessian(h, K, V, s)
        if method == "laplace":
            logdet = np.log(det(H))
        else:
            logdet = sum([np.log(H[i, i]) for i in range(1, dof)], np.log(H[0, 0]))
        const = dof * h.log2pi() / 2 + s * (ld - 2) - logdet / 2
        h.equal(r.lognormconst, const, "Laplace approximation of the normalising constant")
        h.equal(r.score, const - prior - n * h.log2pi(), "Laplace score")
    h.equal(X, Z0, "data unchanged")
    h.equal(S, Z1, "scatter unchanged")
    h.equal(P, Z2, "precision unchanged")


def gwscore(h, method, n, default):
    """The score of a graph: fits and scores of the prior (Laplace) and of the data with the same prior."""
    m = h.mod(GW)
    X = h.array("X", (n, 2))
    d0 = h.real("d0")
    S0 = None if default else h.symmetric("S0", 2)
    G = np.array([[True, True], [False, True]])
    log = []

    def fit(X_, G_, prior, mode="covsel"):
        log.append(("fit", X_, G_, dict(prior), mode))
        return len(log), -len(log)

    def score_(X_, G_, P, S, GWprior=None, score_method="bic"):
        log.append(("score", X_, G_, dict(GWprior), P, S, score_method))
        return m.Bunch(lognormconst=h.real("const%d" % len(log)), score=h.real("score%d" % len(log)))
    h.override(GW + ".GWishartFit", fit)
    h.override(GW + ".compute_score", score_)
    X0 = X.copy()
    r = m.GWishartScore(X, G, d0=d0, S0=S0, score_method=method, mode="gl")
    laplace = method != "bic"
    kinds = [e[0] for e in log]
    if kinds != ["fit", "score"] * (2 if laplace else 1):
        raise ImportError("regain: the score is computed from other pieces")
    if default:
        S0 = h.empty((2, 2))
        for j in range(2):
            mean = sum([X0[i, j] for i in range(n)], h.lit(0)) / n
            S0[j, j] = (d0 - 2) * sum([(X0[i, j] - mean) ** 2 for i in range(n)], h.lit(0)) / n
    for e in log:
        h.equal(e[3]["d0"], d0, "prior degrees of freedom")
        h.equal(e[3]["S0"], S0, "prior scatter")
        h.check(np.array_equal(e[2], G), "graph")
    if laplace:
        h.check(log[0][1].shape == (0, 2) and log[1][1].shape == (0, 2), "the prior is fitted without data")
        h.check((log[1][4], log[1][5]) == (1, -1), "the prior fit is scored")
    f, s = log[-2], log[-1]
    h.equal(f[1], X0, "data of the fit")
    h.equal(s[1], X0, "data of the score")
    h.check(f[4] == "gl", "mode of the fit")
    h.check((s[4], s[5]) == (len(log) - 1, 1 - len(log)), "the fit to the data is scored")
    h.check(s[6] == method, "score method")
    h.equal(s[3]["lognormconst"], h.real("const2") if laplace else 0, "normalising constant of the prior")
    h.equal(r.score, h.real("score%d" % len(log)), "returned score")
    h.equal(X, X0, "data unchanged")


def gwfit(h, n, mode):
    """Scatter and regularised covariance given to the solver."""
    m = h.mod(GW)
    d = 2
    X = h.array("X", (n, d))
    S0, d0 = h.symmetric("S0", d), h.real("d0")
    h.assume(d0 > 2)
    edge = h.flag("edge")
    G = np.eye(d, dtype=bool)
    G[0, 1] = edge
    seen = []
    out = h.symmetric("P", d)

    def sel(G_, n_dim, C):
        seen.append((G_, C))
        return out

    def gl(emp_cov, alpha, **k):
        seen.append((alpha, emp_cov))
        return out, None
    h.override(GW + ".precision_selection", sel)
    h.override(GW + ".graphical_lasso", gl)
    X0 = X.copy()
    P, S = m.GWishartFit(X, G, m.Bunch(d0=d0, S0=S0), mode=mode)
    if len(seen) != 1:
        raise ImportError("regain: another solver is used")
    sc = h.empty((d, d))
    for a in range(d):
        for b in range(d):
            ma, mb = sum([X0[i, a] for i in range(n)], h.lit(0)) / max(n, 1), sum([X0[i, b] for i in range(n)], h.lit(0)) / max(n, 1)
            sc[a, b] = sum([(X0[i, a] - ma) * (X0[i, b] - mb) for i in range(n)], h.lit(0))
    h.equal(S, sc, "centred scatter matrix")
    h.equal(seen[0][1], (sc + S0) / (n + d0 - 2), "covariance given to the solver")
    h.equal(P, out, "returned precision")
    if mode == "covsel":
        h.check(np.array_equal(seen[0][0], G), "graph given to the solver")
    else:
        a = seen[0][0]
        for i in range(d):
            for j in range(d):
                free = i == j or edge
                h.check((a[i, j] == 0) if free else (a[i, j] == np.inf), "penalty of entry %d,%d" % (i, j))
    h.equal(X, X0, "data unchanged")
    bad = m.Bunch(d0=d0, S0=h.symmetric("B", 3))
    h.raises(ValueError, lambda: m.GWishartFit(X, G, bad, mode=mode), "prior of another size")
    h.raises(ValueError, lambda: m.GWishartFit(X, np.eye(3, dtype=bool), m.Bunch(d0=d0, S0=S0), mode=mode), "graph of another size")


def covsel(h, d, edges):
    """Objective and exact gradient over the free entries."""
    m = h.mod(GW)
    C = h.symmetric("C", d)
    G = np.eye(d, dtype=bool)
    for i, j in edges:
        G[i, j] = True
    ix = list(zip(*np.nonzero(G)))
    xs = [h.pos("x_%d_%d" % (i, j)) if i == j else h.real("x_%d_%d" % (i, j)) for i, j in ix]

    def full(v):
        K = h.empty((d, d))
        for (i, j), e in zip(ix, v):
            K[i, j] = K[j, i] = e
        return K
    h.exact_inverse()
    x = h.empty((len(xs),))
    for k, e in enumerate(xs):
        x[k] = e
    x0 = x.copy()
    D = det(full(xs))
    h.use_known()
    if not (D > 0):
        f, g = m.covsel(x, d, G, C)
        h.check(not (f < np.inf), "infinite objective where the determinant is not positive")
        h.equal(np.shape(g), (len(xs),), "gradient has one entry per parameter")
        return
    h.use_known()
    f, g = m.covsel(x, d, G, C)
    obj = lambda v: trace(h, C, full(v)) - np.linalg.slogdet(full(v))[1]
    h.equal(f, obj(xs), "negative log likelihood")
    for k, v in enumerate(h.derivs(obj, xs)):
        h.equal(g[k], v, "gradient entry %d" % k, tol=1e-4)
    h.equal(x, x0, "parameters unchanged")


def selection(h, edge):
    """The minimiser's parameters are placed on the graph, symmetrically."""
    m = h.mod(GW)
    C = h.symmetric("C", 2)
    G = np.eye(2, dtype=bool)
    G[0, 1] = edge
    k = 2 + int(edge)
    x = h.array("x", (k,))
    seen = []

    def minimize(fun, x0, jac=None, **kw):
        seen.append((fun, x0, jac))
        return m.Bunch(x=x)
    h.override(GW + ".minimize", minimize)
    P = m.precision_selection(G, 2, C)
    if len(seen) != 1 or not seen[0][2]:
        raise ImportError("regain: another minimisation is used")
    want = h.empty((2, 2))
    if edge:
        want[0, 0], want[0, 1], want[1, 0], want[1, 1] = x[0], x[1], x[1], x[2]
    else:
        want[0, 0], want[1, 1] = x[0], x[1]
    h.equal(P, want, "precision with the pattern of the graph")
    h.equal(seen[0][1], np.array([1.0, 0.0, 1.0] if edge else [1.0, 1.0]), "started at the identity")
    y = h.empty((k,))
    for i in range(k):
        y[i] = h.pos("y%d" % i)
    if edge:
        h.assume(y[0] * y[2] > y[1] * y[1])
    h.use_known()
    f, _ = seen[0][0](y)
    K = h.empty((2, 2))
    if edge:
        K[0, 0], K[0, 1], K[1, 0], K[1, 1] = y[0], y[1], y[1], y[2]
    else:
        K[0, 0], K[1, 1] = y[0], y[1]
    h.equal(f, trace(h, C, K) - np.linalg.slogdet(K)[1], "the objective is the likelihood of the given covariance")


def graphs(h, d):
    """All undirected graphs, once each, fewest edges first."""
    m = h.mod(GW)
    Gs = m.mk_all_ugs(d)
    h.equal(len(Gs), 2 ** (d * (d - 1) // 2), "number of graphs")
    keys, last = set(), 0
    for G in Gs:
        G = np.array(G, dtype=int)
        h.check(np.array_equal(G, G.T) and not G.diagonal().any(), "undirected without self loops")
        h.check(G.sum() >= last, "ordered by number of edges")
        last = G.sum()
        keys.add(tuple(G.ravel()))
    h.equal(len(keys), len(Gs), "every graph once")


def blankets(h, d, n, boolean):
    m = h.mod(GW)
    tol = 1e-3
    Gs = [h.symmetric("G%d" % k, d) for k in range(n)]
    keep = [G.copy() for G in Gs]
    out = m.markov_blankets(Gs, boolean=boolean, tol=tol)
    for i in range(d):
        for k in range(n):
            for j in range(d):
                v = keep[k][i, j]
                on = i != j and not (-tol < v < tol)
                if boolean:
                    h.check(bool(out[i][k][j]) == on, "neighbour %d of %d in graph %d" % (j, i, k))
                else:
                    h.equal(out[i][k][j], v if on else 0, "weight %d of %d in graph %d" % (j, i, k))
    for G, K in zip(Gs, keep):
        h.equal(G, K, "graphs unchanged")


def resampled(h, d, n, size):
    """Sampled graphs contain an edge exactly when both blankets drawn contain it."""
    m = h.mod(GW)
    rng = [np.array(b) for b in (([[0, 1, 1], [0, 0, 1]]), ([[1, 0, 0], [1, 0, 1]]), ([[1, 1, 0], [0, 1, 0]]))][:d]
    bl = [(b[:, :d] != 0) for b in rng]
    draws = []

    def choice(a, size=None, p=None, **k):
        ix = np.array([h.below("c%d_%d" % (len(draws), s), a) for s in range(size)])
        draws.append((p, ix))
        return ix
    Draws(h)
    h.override("numpy.random.choice", choice)
    scores = h.array("s", (d, n))
    got = m._get_graphs(bl, scores, d, n_resampling=size)
    if len(draws) != d:
        raise ImportError("regain: blankets are drawn differently")
    for i in range(d):
        h.equal(draws[i][0], scores[i], "probabilities of the blankets of variable %d" % i)
    for s in range(size):
        for i in range(d):
            for j in range(d):
                want = bool(bl[i][draws[i][1][s], j]) and bool(bl[j][draws[j][1][s], i])
                h.check(bool(got[s][i, j]) == want, "edge %d,%d of graph %d" % (i, j, s))


def best(h, top_n, k, scoring):
    """The precision returned is the mean of those of the best scored graphs."""
    m = h.mod(GW)
    d = 2
    X = h.array("X", (2, d))
    fits, seen = [], []

    class GL(object):
        def __init__(self, **kw):
            self.kw = kw

        def set_params(self, alpha):
            self.alpha = alpha
            return self

        def fit(self, X):
            fits.append(self.alpha)
            self.precision_ = np.eye(d)
            return self
    gs = [np.array([[0, i % 2], [i % 2, 0]]) != 0 for i in range(k)]
    Ps = [h.symmetric("P%d" % i, d) for i in range(k)]
    sc = [h.real("score%d" % i) for i in range(k)]
    for i in range(k):
        for j in range(i):
            h.assume(sc[i] != sc[j])

    def gw(X, G, d0=3, S0=None, score_method="bic", mode="covsel"):
        seen.append((G, d0, S0, score_method, mode))
        i = len(seen) - 1
        return m.Bunch(P=Ps[i], score=sc[i])
    h.override(GW + ".GraphicalLasso", GL)
    h.override(GW + ".score_blankets", lambda b, X, alphas=None: np.ones((d, 1)))
    h.override(GW + "._get_graphs", lambda *a, **kw: np.array(gs))
    h.override(GW + ".GWishartScore", gw)
    got = m.bayesian_graphical_lasso(X, alphas=[0.5, 0.25], top_n=top_n, scoring=scoring, mode="covsel")
    if len(seen) != k:
        raise ImportError("regain: graphs are scored differently")
    h.check(fits == [0.5, 0.25], "one fit per penalty")
    for i, (G, d0, S0, sm, mode) in enumerate(seen):
        h.check(np.array_equal(np.asarray(G) != 0, np.triu(gs[i]) | np.eye(d, dtype=bool)), "scored graph: upper triangle and diagonal")
        h.check(sm == scoring and mode == "covsel", "scoring as requested")
        h.equal(d0, 3 + d - 1, "prior degrees of freedom")
        h.equal(S0, np.eye(d), "prior scatter")
    order = []
    for i in range(k):
        pos = 0
        while pos < len(order) and sc[order[pos]] > sc[i]:
            pos += 1
        order.insert(pos, i)
    want = sum([Ps[i] for i in order[1:top_n]], Ps[order[0]]) / min(top_n, k)
    h.equal(got, want, "mean precision of the best graphs")


def tasks(T, tier):
    for d in (1, 2):
        yield T("wishart", dict(d=d))
        yield T("niw", dict(d=d))
        yield T("niw", dict(d=d, density=True))
    for d, n in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)):
        yield T("posterior", dict(d=d, n=n))
    for n in (1, 2):
        yield T("samples", dict(d=2, n=n))
    yield T("lognormal", {})
    yield T("lognstat", {})
    yield T("frob", dict(shape=(2, 2)))
    yield T("frob", dict(shape=(2, 2, 2)))
    for d, n, t in ((2, 1, 1), (2, 2, 1), (2, 2, 2), (2, 3, 1)):
        yield T("tnormal", dict(d=d, n=n, T=t))
    yield T("laplace_h", dict(d=1))
    yield T("laplace_h", dict(d=2))
    yield T("hessian2", dict(d=2))
    for edge in (False, True):
        for method in ("bic", "diaglaplace", "laplace"):
            for n in ((2,) if method == "bic" else (0, 2)):
                yield T("score", dict(edge=edge, n=n, method=method))
        yield T("selection", dict(edge=edge))
    for method in ("bic", "diaglaplace", "laplace"):
        yield T("gwscore", dict(method=method, n=2, default=False))
    yield T("gwscore", dict(method="bic", n=3, default=True))
    for n in (0, 1, 3):
        for mode in ("covsel", "gl"):
            yield T("gwfit", dict(n=n, mode=mode))
    yield T("covsel", dict(d=2, edges=[]))
    yield T("covsel", dict(d=2, edges=[(0, 1)]))
    yield T("covsel", dict(d=3, edges=[(0, 1), (1, 2)]))
    for d in (2, 3):
        yield T("graphs", dict(d=d))
    for b in (True, False):
        yield T("blankets", dict(d=2, n=2, boolean=b))
    yield T("blankets", dict(d=3, n=1, boolean=True))
    yield T("resampled", dict(d=3, n=2, size=1))
    yield T("resampled", dict(d=2, n=2, size=2))
    yield T("best", dict(top_n=1, k=3, scoring="bic"))
    yield T("best", dict(top_n=2, k=3, scoring="laplace"))
    if tier == "thorough":
        yield T("wishart", dict(d=3), budget=900)
        yield T("niw", dict(d=3), budget=900)
        yield T("posterior", dict(d=3, n=3))
        yield T("posterior", dict(d=2, n=5))
        yield T("tnormal", dict(d=2, n=3, T=3))
        yield T("tnormal", dict(d=3, n=2, T=1), budget=900)
        yield T("covsel", dict(d=3, edges=[(0, 1), (0, 2), (1, 2)]), budget=900)
        yield T("graphs", dict(d=4))
        yield T("blankets", dict(d=3, n=2, boolean=True), paths=5000)
        yield T("best", dict(top_n=2, k=4, scoring="bic"))
