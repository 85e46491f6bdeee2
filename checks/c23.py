"""C23: information criteria."""
import numpy as np

MOD = "regain.scores"
BOUNDS = ("covariances and precisions of size 2x2 and 3x3 (arbitrary real entries, every zero pattern of the off-diagonal "
          "entries), 1..3 time points; any sample count > 1 and any epsilon; comparison of any two models with equal "
          "likelihood for every pair of edge counts")
ASSUMPTIONS = ["log of the number of variables is the float64 constant"]


def entry(h, name):
    x = h.real(name)
    return x if x != 0 else h.lit(0)


def model(h, d, t, full=False):
    """Precision with arbitrary zero pattern (nonzero diagonal unless full), and its number of off-diagonal nonzeros."""
    K = np.zeros((d, d))
    nz = 0
    for i in range(d):
        for j in range(i + 1):
            nm = "K%d_%d_%d" % (t, i, j)
            if i == j:
                v = entry(h, nm) if full else h.pos(nm)
            else:
                v = entry(h, nm)
            K[i, j] = K[j, i] = v
            if bool(v != 0):
                nz += 1 if i == j else 2
    return K, nz


def det(K):
    if K.shape[0] == 2:
        return K[0, 0] * K[1, 1] - K[0, 1] * K[1, 0]
    return (K[0, 0] * (K[1, 1] * K[2, 2] - K[1, 2] * K[2, 1]) - K[0, 1] * (K[1, 0] * K[2, 2] - K[1, 2] * K[2, 0])
            + K[0, 2] * (K[1, 0] * K[2, 1] - K[1, 1] * K[2, 0]))


def loglik(h, S, K):
    d = K.shape[0]
    tr = h.lit(0)
    for i in range(d):
        for j in range(d):
            tr = tr + S[i, j] * K[i, j]
    return np.linalg.slogdet(K)[1] - tr


def static(h, d, full=False):
    m = h.mod(MOD)
    K, nz = model(h, d, 0, full)
    S = h.array("S", (d, d))
    n, eps = h.pos("n"), h.real("eps")
    h.assume(n > 1)
    h.assume(det(K) > 0)
    h.use_known()
    K0, S0 = K.copy(), S.copy()
    ll = loglik(h, S0, K0)
    df = nz - d
    h.equal(m.log_likelihood(S, K), ll, "log-likelihood")
    h.equal(m.BIC(S, K), ll - df, "BIC")
    h.equal(m.EBIC(S, K, n=n, epsilon=eps), ll - np.log(n) / n * df - 4 * eps * np.log(d) / n * df, "EBIC")
    h.equal(m.EBIC_m(S, K, n=n, epsilon=eps), ll - np.log(n) / n * df - 4 * eps * np.log(d * (d - 1) / 2) / n * df,
            "modified EBIC")
    h.equal(K, K0, "precision unchanged")
    h.equal(S, S0, "covariance unchanged")


def temporal(h, d, T):
    m = h.mod(MOD)
    Ks, Ss, ll, nz = [], [], h.lit(0), 0
    for t in range(T):
        K, z = model(h, d, t)
        h.assume(det(K) > 0)
        S = h.array("S%d" % t, (d, d))
        Ks.append(K)
        Ss.append(S)
        nz += z
    h.use_known()
    for t in range(T):
        ll = ll + loglik(h, Ss[t], Ks[t])
    n, eps = h.pos("n"), h.real("eps")
    h.assume(n > 1)
    K, S = np.array(Ks), np.array(Ss)
    K0, S0 = K.copy(), S.copy()
    p = T * d
    df = nz - p
    h.equal(m.log_likelihood_t(S, K), ll, "log-likelihood over time")
    h.equal(m.BIC_t(S, K), ll - df, "BIC over time")
    h.equal(m.EBIC_t(S, K, n=n, epsilon=eps), ll - np.log(n) / n * df - 4 * eps * np.log(p) / n * df, "EBIC over time")
    h.equal(m.EBIC_m_t(S, K, n=n, epsilon=eps), ll - np.log(n) / n * df - 4 * eps * np.log(p * (p - 1) / 2) / n * df,
            "modified EBIC over time")
    h.equal(K, K0, "precision unchanged")
    h.equal(S, S0, "covariance unchanged")


def batch(h, d, T):
    """The log-likelihood of a batch has one value per matrix; non positive determinants give -inf."""
    m = h.mod(MOD)
    K, S = h.symmetrics("K", T, d), h.array("S", (T, d, d))
    out = m.log_likelihood(S, K)
    for t in range(T):
        sign, ld = np.linalg.slogdet(K[t])
        tr = sum([S[t, i, j] * K[t, i, j] for i in range(d) for j in range(d)], h.lit(0))
        h.equal(out[t], np.where(sign > 0, ld, -np.inf) - tr, "log-likelihood of matrix %d" % t)


def sparser(h, d, name):
    """Removing an edge without changing the likelihood never lowers the score."""
    m = h.mod(MOD)
    f = getattr(m, name)
    t = name.endswith("_t")
    K1, z1 = model(h, d, 0)
    K2, z2 = model(h, d, 1)
    if z2 >= z1:
        h.assume(False)
    h.assume(det(K1) > 0)
    h.assume(det(K2) > 0)
    h.use_known()
    # a covariance under which both are equally likely
    S = np.zeros((d, d))
    l1, l2 = np.linalg.slogdet(K1)[1], np.linalg.slogdet(K2)[1]
    gap = l1 - l2
    for i in range(d - 1):
        S[i, i] = h.real("S_%d" % i)
        gap = gap - S[i, i] * (K1[i, i] - K2[i, i])
    h.assume(K1[d - 1, d - 1] != K2[d - 1, d - 1])
    S[d - 1, d - 1] = gap / (K1[d - 1, d - 1] - K2[d - 1, d - 1])
    kw = {}
    if "EBIC" in name:
        n, eps = h.pos("n"), h.nonneg("eps")
        h.assume(n > 1)
        h.assume(np.log(n) > 0)
        kw = dict(n=n, epsilon=eps)
    if t:
        a, b = f(S[None], K1[None], **kw), f(S[None], K2[None], **kw)
    else:
        a, b = f(S, K1, **kw), f(S, K2, **kw)
    h.leq(a, b, "the sparser of two equally likely models does not score worse")


def tasks(T, tier):
    yield T("static", dict(d=2))
    yield T("static", dict(d=2, full=True))
    yield T("static", dict(d=3), paths=1000)
    yield T("temporal", dict(d=2, T=1))
    yield T("temporal", dict(d=2, T=2))
    yield T("temporal", dict(d=2, T=3))
    yield T("batch", dict(d=2, T=2))
    for n in ("BIC", "EBIC", "EBIC_m", "BIC_t", "EBIC_t", "EBIC_m_t"):
        yield T("sparser", dict(d=2, name=n))
    if tier == "thorough":
        yield T("temporal", dict(d=3, T=2), paths=5000, budget=600)
        yield T("static", dict(d=3, full=True), paths=5000, budget=600)
