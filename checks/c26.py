"""C26: synthetic Gaussian data sets."""
import numpy as np
from draws import Draws

BOUNDS = ("2..3 variables, 1 latent variable (0 for the kernel generators), 1..3 times, 1..2 samples per time; arbitrary outcomes of "
          "every random draw, arbitrary precisions for user-supplied generators")
ASSUMPTIONS = ["draws for which a generator's own assertion (rank, positive definiteness) fails are outside of the claim",
               "uniform draws lie strictly between 0 and 1; normalised perturbations are not null",
               "Gaussian-process draws, eigenvectors of random matrices and scikit-learn's random matrices are arbitrary matrices",
               "modes my, mys (own return format), ma and mak (latent variables only from 20 variables on), ticc and the TICC data sets"
               " are not covered"]
G = "regain.datasets.gaussian"


def attempt(h, f):
    try:
        return f()
    except AssertionError:
        h.assume(False)
        raise


def det(x):
    return x[0, 0] * x[1, 1] - x[0, 1] * x[1, 0]


def consistent(h, thetas, obs, ells, T, d):
    h.check(len(thetas) == T and len(obs) == T and len(ells) == T, "one matrix per time")
    for t in range(min(T, len(thetas), len(obs), len(ells))):
        for m, n in ((thetas[t], "sparse precision"), (obs[t], "observed precision"), (ells[t], "latent part")):
            h.check(m.shape == (d, d), n + ": size")
            h.equal(m, m.T, n + ": symmetric")
        h.equal(obs[t], thetas[t] - ells[t], "observed = sparse - latent")


def psd(h, m, label):
    d = m.shape[0]
    for i in range(d):
        h.leq(h.lit(0), m[i, i], label)
    if d == 2:
        h.leq(h.lit(0), det(m), label)


def dataset(h, n, d, T, axis, via):
    """make_dataset with a generator of arbitrary precisions."""
    D = Draws(h)
    th = h.symmetrics("t", T, d)
    ob = h.empty((T, d, d))
    for t in range(T):
        ob[t] = h.spd("o%d" % t, d)
    el = h.symmetrics("l", T, d)
    asked = []

    def gen(**k):
        asked.append((k["n_dim_obs"], k["n_dim_lat"], k["T"], k["degree"], k["epsilon"], k["keep_sparsity"], k["proportional"], k["extra"]))
        return th, ob, el
    kw = dict(n_samples=n, n_dim_obs=d, n_dim_lat=1, T=T, time_on_axis=axis, degree=5, epsilon=7, keep_sparsity=3,
              proportional=4, extra=9)
    b = h.mod("regain.datasets.base")
    if via == "callable":
        r = b.make_dataset(mode=gen, **kw)
    else:
        names = dict(sin="make_sin", fixed_sparsity="make_fixed_sparsity", sincos="make_sin_cos", gp="make_exp_sine_squared",
                     fede="make_fede", sklearn="make_sparse_low_rank", ma="make_ma_xue_zou", mak="make_ma_xue_zou_rand_k")
        if via is not None:
            h.override("regain.datasets.base." + names[via], gen)
        else:
            def gen2(**k):
                h.check((k["update_ell"], k["update_theta"], k["normalize_starting_matrices"]) == ("l1", "l2", "yes"),
                        "options of the default generator")
                return gen(**k)
            h.override("regain.datasets.base.make_covariance", gen2)
            kw.update(update_ell="l1", update_theta="l2", normalize_starting_matrices="yes")
        r = b.make_dataset(mode=via, distribution="Gaussian", **kw)
    if not asked or len(D.normals) != T:
        raise ImportError("regain: generators or samples are obtained differently")
    h.check(asked == [(d, 1, T, 5, 7, 3, 4, 9)], "options reach the generator")
    h.equal(np.array(r.thetas), th, "sparse precisions as generated")
    h.equal(np.array(r.thetas_observed), ob, "observed precisions as generated")
    h.equal(np.array(r.ells), el, "latent parts as generated")
    X = np.array(r.X)
    h.check(X.shape == (n * T, d), "samples of all times stacked")
    h.check([int(v) for v in r.y] == [t for t in range(T) for _ in range(n)], "one label per sample")
    h.check(np.array(r.data).shape == ((n, d, T) if axis == "last" else (T, n, d)), "shape of the data")
    for t in range(T):
        mean, cov, x = D.normals[t]
        h.equal(np.array(mean), h.empty((d,)), "null mean")
        h.equal(np.matmul(np.array(cov), ob[t]), np.eye(d), "covariance = inverse of the observed precision")
        for s in range(n):
            h.equal(X[t * n + s], x[s], "sample of its own time")
            h.equal(r.data[s, :, t] if axis == "last" else r.data[t, s], x[s], "data of its own time")


def unknown(h):
    b = h.mod("regain.datasets.base")
    h.raises(ValueError, lambda: b.make_dataset(mode="nothing", n_dim_obs=2, n_samples=1, T=1), "unknown mode")
    h.raises(ValueError, lambda: b.make_dataset(distribution="nothing", n_dim_obs=2, n_samples=1, T=1), "unknown distribution")


def latent(h, k, d):
    """(K, L) with L = K'K."""
    K = h.array("k", (k, d))
    return h.matmul(K.T, K), K


def ell(h, k, d):
    D = Draws(h)
    h.override("numpy.linalg.matrix_rank", lambda *a, **kw: k)
    h.override(G + ".is_pos_semidef", lambda *a, **kw: True)
    L, K = attempt(h, lambda: h.mod(G).make_ell(d, k))
    h.check(K.shape == (k, d), "one row per latent variable")
    h.equal(L, h.matmul(K.T, K), "latent part is the Gram matrix of the links")
    h.equal(L, L.T, "symmetric")


def starting(h, d, degree, normalize):
    D = Draws(h)
    L, K = latent(h, 1, d)
    h.override(G + ".make_ell", lambda *a, **k: (L, K))
    L0 = L.copy()
    th, ob, l, k = attempt(h, lambda: h.mod(G).make_starting(d, 1, degree, normalize=normalize))
    consistent(h, [th], [ob], [l], 1, d)
    h.equal(l, L0, "latent part as generated")
    h.equal(h.matmul(k.T, k), l, "latent part is the Gram matrix of the links")
    if d == 2:
        h.check(ob[0, 0] > 0, "observed precision is positive definite")
        h.check(det(ob) > 0, "observed precision is positive definite")


def covariance(h, d, T, ue, ut, keep=False, k=1):
    D = Draws(h)
    L, K = latent(h, k, d)
    th = h.symmetric("t", d)
    for i in range(d):
        th[i, i] = h.pos("t_%d" % i)
    th0, L0 = th.copy(), L.copy()
    h.override(G + ".make_starting", lambda *a, **kw: (th, th - L, L, K))
    h.override("numpy.linalg.matrix_rank", lambda *a, **kw: k)
    h.override(G + ".is_pos_semidef", lambda *a, **kw: True)
    if ut == "l1":
        st = dict(rows=None, rounds=0)

        def randint(low, high=None, size=None, **kw):
            """Rejected pairs of indices: at most once per run."""
            x = D.randint(low, high, size)
            if high != d:
                st["rows"] = None
            elif st["rows"] is None:
                st["rows"] = x
            else:
                if st["rounds"]:
                    h.assume(all(int(a) != int(b) for a, b in zip(np.ravel(x), np.ravel(st["rows"]))))
                st["rows"] = None
                st["rounds"] += 1
            return x
        h.override("numpy.random.randint", randint)
    if ut == "l2":
        base = D.randn

        def randn(*shape):
            z = base(*shape)
            for e in np.array(z).ravel():
                h.assume(e > 0)         # not null; signs are irrelevant to the claim
            return z
        h.override("numpy.random.randn", randn)
    eps = h.lit(1) / 100
    thetas, obs, ells = attempt(h, lambda: h.mod(G).make_covariance(
        d, k, T, update_ell=ue, update_theta=ut, degree=1, epsilon=0.01, keep_sparsity=keep))
    consistent(h, thetas, obs, ells, T, d)
    h.equal(thetas[0], th0, "starts from the starting precision")
    h.equal(ells[0], L0, "starts from the starting latent part")
    for t in range(1, T):
        a, b = thetas[t - 1], thetas[t]
        if ue == "fixed":
            h.equal(ells[t], L0, "fixed latent part")
        else:
            psd(h, ells[t], "latent part positive semidefinite")
        ch = []
        for i in range(d):
            for j in range(i):
                if ut == "l1":
                    if not (a[i, j] == b[i, j]):
                        ch.append((i, j))
                else:
                    zero = b[i, j] == 0
                    if not zero:
                        h.leq((b[i, j] - a[i, j]) * (b[i, j] - a[i, j]), eps * eps, "small change")
                        if keep:
                            h.check(th0[i, j] != 0, "no new edge")
        if ut == "l1":
            h.check(len(ch) <= 1, "at most one edge changes")


def covbad(h):
    L, K = latent(h, 1, 2)
    th = h.symmetric("t", 2)
    h.override(G + ".make_starting", lambda *a, **kw: (th, th - L, L, K))
    f = h.mod(G).make_covariance
    h.raises(ValueError, lambda: f(2, 1, 2, update_theta="other"), "unknown update of theta")
    D = Draws(h)
    seq = [np.array([0]), np.array([1])] * 5
    h.override("numpy.random.randint", lambda *a, **k: seq.pop(0))
    h.raises(ValueError, lambda: f(2, 1, 2, update_ell="other", update_theta="l1"), "unknown update of the latent part")


def fixed(h, d, T):
    D = Draws(h)
    L, K = latent(h, 1, d)
    th = h.symmetric("t", d)
    L0, th0 = L.copy(), th.copy()
    h.override(G + ".make_starting", lambda *a, **kw: (th, th - L, L, K))
    thetas, obs, ells = attempt(h, lambda: h.mod(G).make_fixed_sparsity(d, 1, T))
    consistent(h, thetas, obs, ells, T, d)
    h.equal(thetas[0], np.abs(th0), "starts from the starting precision")
    for t in range(T):
        h.equal(ells[t], L0, "fixed latent part")
    for t in range(1, T):
        for i in range(d):
            for j in range(i):
                if thetas[t][i, j] != 0:
                    h.check(thetas[t - 1][i, j] != 0, "no new edge")


def sine(h, d, T, normalize, shape, closeness):
    D = Draws(h)
    k = []

    def positive(x, **kw):      # borderline matrices (singular up to rounding): either answer
        k.append(1)
        return all([bool(x[i, i] > 0) for i in range(x.shape[0])]) and h.flag("pd%d" % len(k))
    h.override("regain.utils.positive_definite", positive)
    if shape != "smooth":
        h.override("scipy.signal.square", lambda x, duty=0.5: x)
    thetas, obs, ells = attempt(h, lambda: h.mod(G).make_sin(d, 0, T, shape=shape, closeness=closeness, normalize=normalize))
    consistent(h, thetas, obs, ells, T, d)
    for t in range(T):
        h.equal(ells[t], h.empty((d, d)), "no latent part")
        if normalize:
            for i in range(d):
                h.equal(thetas[t][i, i], 1, "unit diagonal")
        for i in range(d):
            h.check(thetas[t][i, i] > 0, "positive diagonal")


def sincos(h, d, T):
    D = Draws(h)
    L, K = latent(h, 1, d)
    L0 = L.copy()
    h.override(G + ".make_ell", lambda *a, **k: (L, K))
    thetas, obs, ells = attempt(h, lambda: h.mod(G).make_sin_cos(d, 1, T))
    consistent(h, thetas, obs, ells, T, d)
    for t in range(T):
        h.equal(ells[t], L0, "fixed latent part")
        if d == 2:
            h.check(det(obs[t]) > 0, "observed precision is positive definite")


def fede(h, d, k, T):
    D = Draws(h)
    cnt = []

    def eigh(a, *r, **kw):
        cnt.append(1)
        return h.array("e%d" % len(cnt), (d,)), h.array("q%d" % len(cnt), (d, d))
    h.override("numpy.linalg.eigh", eigh)
    Ks, Ko, Ls = attempt(h, lambda: h.mod(G).make_fede(d, k, T))
    consistent(h, Ks, Ko, Ls, T, d)
    for t in range(T):
        psd(h, Ls[t], "latent part positive semidefinite")


def lowrank(h, d, T):
    from_sk = []

    def spd(n, *a, **k):
        from_sk.append(1)
        return h.spd("s%d" % len(from_sk), n)

    def low(n, m, *a, **k):
        from_sk.append(1)
        return h.array("w%d" % len(from_sk), (n, m))
    h.override("sklearn.datasets.make_sparse_spd_matrix", spd)
    h.override("sklearn.datasets.make_low_rank_matrix", low)
    Ks, Ko, Ls = attempt(h, lambda: h.mod(G).make_sparse_low_rank(d, 1, T))
    consistent(h, Ks, Ko, Ls, T, d)
    for t in range(T):      # a sum of positive semidefinite matrices
        psd(h, Ls[t] - Ls[t - 1] if t else Ls[0], "latent part positive semidefinite")


def sinekernel(h, d, T, sparse):
    D = Draws(h)
    u = h.array("g", (d * (d - 1) // 2, T))
    L, K = latent(h, 1, d)
    L0 = L.copy()
    h.override("regain.datasets.kernels.make_ell", lambda *a, **k: (L, K))
    h.override("regain.bayesian.gaussian_process_.sample", lambda *a, **k: (u,))
    thetas, obs, ells = attempt(h, lambda: h.mod("regain.datasets.kernels").make_exp_sine_squared(d, 1, T, sparse=sparse))
    consistent(h, thetas, obs, ells, T, d)
    for t in range(T):
        h.equal(ells[t], L0, "fixed latent part")
        if d == 2:
            h.check(det(obs[t]) > 0, "observed precision is positive definite")


def rbf(h, d, k, T, sparse):
    D = Draws(h)
    h.exact_inverse()
    n = d + k
    u = h.array("g", (n * (n - 1) // 2, T))
    h.override("regain.bayesian.gaussian_process_.sample", lambda *a, **kw: (u,))
    thetas, obs, ells = attempt(h, lambda: h.mod("regain.datasets.kernels").make_RBF(d, k, T, sparse=sparse))
    h.check(len(thetas) == T and len(obs) == T and len(ells) == T, "one matrix per time")
    for t in range(T):
        th = thetas[t]
        h.equal(th, th.T, "symmetric")
        h.equal(obs[t], obs[t].T, "observed precision: symmetric")
        h.equal(obs[t], th[k:, k:] - ells[t], "observed = observed block - latent part")
        h.equal(th[k:, :k], thetas[0][k:, :k], "links to the latent variables do not change")
        if k == 1:
            h.equal(ells[t], h.matmul(th[k:, :k], th[:k, k:]) / th[0, 0], "marginalised latent variables")


def tasks(T, tier):
    th = tier == "thorough"
    for axis in ("first", "last"):
        yield T("dataset", dict(n=2, d=2, T=2, axis=axis, via="callable"))
        yield T("dataset", dict(n=1, d=2, T=3, axis=axis, via="callable"))
    yield T("dataset", dict(n=3, d=2, T=1, axis="last", via="callable"))
    yield T("dataset", dict(n=1, d=3, T=2, axis="first", via="callable"))
    for via in (None, "sin", "fixed_sparsity", "sincos", "gp", "fede", "sklearn", "ma", "mak"):
        yield T("dataset", dict(n=2, d=2, T=2, axis="first", via=via))
    yield T("unknown", {})
    for k, d in ((1, 2), (1, 3), (2, 2)) + (((2, 3), (1, 4)) if th else ()):
        yield T("ell", dict(k=k, d=d), paths=3000)
    for norm in (False, True):
        for d, deg in ((2, 1), (2, 2)) + (((3, 1),) if th else ()):
            yield T("starting", dict(d=d, degree=deg, normalize=norm), paths=3000, budget=200)
    for ue in ("fixed", "l1", "l2", "yuan"):
        for ut in ("l1", "l2"):
            for TT in (2,) + ((3,) if th else ()):
                yield T("covariance", dict(d=2, T=TT, ue=ue, ut=ut), paths=4000, budget=200)
    if th:
        yield T("covariance", dict(d=2, T=3, ue="fixed", ut="l1"), paths=4000, budget=200)
    yield T("covariance", dict(d=2, T=2, ue="fixed", ut="l2", keep=True), paths=4000, budget=200)
    yield T("covariance", dict(d=3, T=2, ue="fixed", ut="l1"), paths=4000, budget=200)
    yield T("covbad", {})
    for d, TT in ((2, 1), (2, 2)) + (((2, 3), (3, 2)) if th else ()):
        yield T("fixed", dict(d=d, T=TT), paths=3000, budget=200)
    for d, TT in ((2, 1), (2, 2), (3, 2)):
        for norm in (False, True):
            yield T("sine", dict(d=d, T=TT, normalize=norm, shape="smooth", closeness=2), paths=3000, budget=200)
    yield T("sine", dict(d=2, T=2, normalize=False, shape="square", closeness=1), paths=3000, budget=200)
    for d, TT in ((2, 1), (2, 2), (2, 3)):
        yield T("sincos", dict(d=d, T=TT), paths=3000, budget=200)
    for d, k, TT in ((2, 1, 1), (2, 1, 2), (2, 2, 2)):
        yield T("fede", dict(d=d, k=k, T=TT), paths=3000, budget=200)
    for d, TT in ((2, 1), (2, 2), (2, 3)):
        yield T("lowrank", dict(d=d, T=TT))
    for sparse in (True, False):
        for d, TT in ((2, 1), (2, 2)):
            yield T("sinekernel", dict(d=d, T=TT, sparse=sparse), paths=3000, budget=200)
        for d, k, TT in ((2, 1, 1), (2, 1, 2)):
            yield T("rbf", dict(d=d, k=k, T=TT, sparse=sparse), paths=3000, budget=200)
