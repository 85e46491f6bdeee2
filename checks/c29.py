"""C29: Wishart-process sampling."""
import numpy as np
from draws import Draws

SA = "regain.bayesian.sampling"
WP = "regain.bayesian.wishart_process_"
GP = "regain.bayesian.gaussian_process_"
BOUNDS = ("1..2 factors, 1..2 variables, 1..3 times; up to 3 proposals per slice update, every accept/reject history; every element of a "
          "2x2 factor; 1..3 chain iterations with every accept history; arbitrary real states, likelihood values and draws")
ASSUMPTIONS = ["the likelihood is an opaque function of the covariance tensor; sin and cos are opaque", "numpy.random draws are arbitrary "
               "values of their range, their parameters are recorded", "scipy's normal and lognormal log densities are their closed "
               "forms (positive definite covariances)", "chain and estimator: the component samplers return arbitrary states"]


def gwp(h, U, L):
    """(p, p, N) tensor L U_t' U_t L'."""
    v, p, N = U.shape
    out = h.empty((p, p, N))
    for t in range(N):
        for a in range(p):
            for b in range(p):
                acc = h.lit(0)
                for k in range(v):
                    ra = sum([L[a, i] * U[k, i, t] for i in range(p)], h.lit(0))
                    rb = sum([L[b, i] * U[k, i, t] for i in range(p)], h.lit(0))
                    acc = acc + ra * rb
                out[a, b, t] = acc
    return out


def construct(h, v, p, N):
    m = h.mod(SA)
    U, L = h.array("U", (v, p, N)), h.array("L", (p, p))
    U0, L0 = U.copy(), L.copy()
    M = m.GWP_construct(U, L)
    h.equal(M, gwp(h, U0, L0), "covariances L U'U L' of each time")
    x = h.array("x", (p,))
    for t in range(N):
        for a in range(p):
            for b in range(a):
                h.equal(M[a, b, t], M[b, a, t], "symmetric")
        q = sum([x[a] * M[a, b, t] * x[b] for a in range(p) for b in range(p)], h.lit(0))
        sq = h.lit(0)
        for k in range(v):
            r = sum([x[a] * L0[a, i] * U0[k, i, t] for a in range(p) for i in range(p)], h.lit(0))
            sq = sq + r * r
        h.equal(q, sq, "positive semidefinite: its quadratic form is a sum of squares")
    h.equal(U, U0, "factors unchanged")
    h.equal(L, L0, "scale unchanged")


class Lik(object):
    def __init__(self, h):
        self.h, self.seen = h, []

    def __call__(self, V):
        self.seen.append(V)
        return self.h.stub("lik", [V], ())


def slice_(h, v, p, N, iters, prior, angle, start):
    m = h.mod(SA)
    D = Draws(h)
    U, L = h.array("U", (v, p, N)), h.array("L", (p, p))
    n = v * p * N
    lik = Lik(h)
    V0 = h.symmetric("V", p).reshape(p, p, 1) if N == 1 else h.array("V", (p, p, N))
    cur = h.real("cur") if start else None
    P = h.array("P", (v, p, N) if prior == "sample" else (n, n))
    h.assume(np.abs(P).sum() >= 0)
    width = h.pos("width") if angle else 0
    U0, L0, P0, V00 = U.copy(), L.copy(), P.copy(), V0.copy()
    st = h.mod("regain.bayesian.wishart_process_").Bunch(xx=U, V=V0, L=L, log_likelihood=cur)
    h.use_known()
    stuck, out = False, None
    try:
        out = m.elliptical_slice(st, P, likelihood=lik, angle_range=width, max_iter=iters)
    except RuntimeError:
        stuck = True
    u = list(D.uniforms)
    if prior == "sample":
        nu = P0
    else:
        if len(D.gauss) != 1:
            raise ImportError("regain: the prior sample is drawn differently")
        z = D.gauss[0][2]
        h.equal(np.array(D.gauss[0][:2]), np.array([0.0, 1.0]), "standard normal draws")
        flat = h.empty((n,))
        for i in range(n):
            flat[i] = sum([P0[j, i] * z[j] for j in range(n)], h.lit(0))
        nu = flat.reshape(v, p, N)
    calls = 0
    if not start:
        cur = h.stub("lik", [V00], ())
        calls = 1
    level = 0.001 * np.log(u[0]) + cur
    if angle:
        lo = -width * u[1]
        hi = lo + width
        phi = lo + u[2] * (hi - lo)
        k = 3
    else:
        phi = u[1] * 2 * np.pi
        lo, hi = phi - 2 * np.pi, phi
        k = 2
    done = False
    for it in range(iters):
        c, s = np.cos(phi), np.sin(phi)
        x = U0 * c + nu * s
        V = gwp(h, x, L0)
        ll = h.stub("lik", [V], ())
        calls += 1
        if ll > level:
            done = True
            break
        if phi > 0:
            hi = phi
        elif phi < 0:
            lo = phi
        else:
            h.check(stuck, "a rejected null angle is reported")
            return
        if it + 1 < iters:
            if k >= len(u):
                raise ImportError("regain: angles are drawn differently")
            phi = lo + u[k] * (hi - lo)
            k += 1
    h.check(not stuck, "no error for other angles")
    if stuck:
        return
    h.equal(len(lik.seen), calls, "stops at the first accepted proposal")
    if done:
        h.equal(out.xx, x, "state: point of the ellipse at the first accepted angle of the shrinking bracket")
        h.equal(out.V, V, "covariances of the new state")
        h.equal(out.log_likelihood, ll, "log likelihood of the new state")
        h.check(ll > level, "accepted above the level")
    else:
        h.equal(out.xx, U0, "state kept when every proposal is rejected")
        h.equal(out.V, V00, "covariances kept when every proposal is rejected")
        if start:
            h.equal(out.log_likelihood, cur, "log likelihood kept when every proposal is rejected")
    h.equal(out.L, L0, "scale kept")
    h.equal(U, U0, "previous state not overwritten")
    h.equal(P, P0, "prior sample not overwritten")


def slice_errors(h):
    m = h.mod(SA)
    Draws(h)
    B = h.mod(WP).Bunch
    U, L = h.array("U", (1, 2, 1)), h.array("L", (2, 2))
    st = B(xx=U, V=h.array("V", (2, 2, 1)), L=L, log_likelihood=h.real("c"))
    h.raises(ValueError, lambda: m.elliptical_slice(st, U), "a likelihood is required")
    h.raises(ValueError, lambda: m.elliptical_slice(st, h.array("P", (3, 3)), likelihood=Lik(h)), "prior of another size")


class Normal(object):
    """scipy.stats.norm / lognorm: log densities, and frozen distributions that record their parameters."""

    def __init__(self, h, log=False):
        self.h, self.log, self.made = h, log, []

    def __call__(self, *a, **k):
        self.made.append((a, k))
        return ("frozen", len(self.made))

    def logpdf(self, x, *a, **k):
        h = self.h
        if self.log:
            names = dict(zip(("s", "loc", "scale"), a))
            names.update(k)
            mu, s = np.log(names.get("scale", 1)), names["s"]
            if bool(names.get("loc", 0) != 0):
                raise ImportError("regain: shifted lognormal")
            z = (np.log(x) - mu) / s
            return -z * z / 2 - np.log(x) - np.log(s) - h.log2pi() / 2
        names = dict(zip(("loc", "scale"), a))
        names.update(k)
        s = names.get("scale", 1)
        z = (x - names.get("loc", 0)) / s
        return -z * z / 2 - np.log(s) - h.log2pi() / 2


class Prior(object):
    def __init__(self, h):
        self.h = h

    def logpdf(self, x):
        return self.h.stub("prior", [x], ())


def stats(h, mod):
    """Closed-form log densities (both modes)."""
    a, b = Normal(h), Normal(h, True)
    h.override("scipy.stats.norm", a)
    h.override("scipy.stats.lognorm", b)
    return a, b


def hyper(h, n, N):
    """Metropolis-Hastings rule of the kernel parameter."""
    m = h.mod(SA)
    D = Draws(h)
    _, logn = stats(h, m)
    th, var = h.pos("theta"), h.pos("var")
    X = h.array("X", (n, N))
    pr = Prior(h)

    def kern(inverse_width):
        K = h.empty((N, N))
        for i in range(N):
            for j in range(N):
                K[i, j] = inverse_width + 1 if i == j else h.lit(0.5) if N < 3 else h.lit(0.25)
        return K
    X0 = X.copy()
    got, acc = m.sample_hyper_kernel(th, var, X, kern, pr)
    if len(D.lognormals) != 1 or len(D.uniforms) != 1:
        raise ImportError("regain: proposals are drawn differently")
    mu, sg, new = D.lognormals[0]

    def params(x):
        return np.log(x * x / np.sqrt(var + x * x)), np.sqrt(np.log(var / (x * x) + 1))
    wm, ws = params(th)
    h.equal(mu, wm, "location of the proposal")
    h.equal(sg, ws, "scale of the proposal")
    mean = [sum([X0[i, j] for i in range(n)], h.lit(0)) / n for j in range(N)]

    def post(w):
        dg, off = w + 1, (h.lit(0.5) if N < 3 else h.lit(0.25))
        tot = pr.logpdf(w)
        if N == 1:
            det, K = dg, [[1 / dg]]
        else:
            det = dg * dg - off * off
            K = [[dg / det, -off / det], [-off / det, dg / det]]
        for i in range(n):
            q = sum([(X0[i, a] - mean[a]) * K[a][b] * (X0[i, b] - mean[b]) for a in range(N) for b in range(N)], h.lit(0))
            tot = tot - (q + np.log(det) + N * h.log2pi()) / 2
        return tot

    def q(x, given):
        a, b = params(given)
        return logn.logpdf(x, s=b, scale=np.exp(a))
    ratio = post(new) - post(th) + q(th, new) - q(new, th)
    lu = np.log(D.uniforms[0])
    want = (lu < 0) and (lu < ratio)
    h.check(bool(acc) == bool(want), "accepted exactly when log u is below the acceptance ratio")
    h.equal(got, new if want else th, "the proposal if accepted, else the previous value")
    h.equal(X, X0, "states unchanged")


def ell(h, p, v, N, vector):
    """Element-wise Metropolis-Hastings of the scale factor."""
    m = h.mod(SA)
    D = Draws(h)
    stats(h, m)
    pr, lik = Prior(h), Lik(h)
    k = p * (p + 1) // 2
    U = h.array("U", (v, p, N))
    lt = h.array("l", (k,))
    if vector:
        sd = [h.pos("s%d" % i) for i in range(k)]
        var = h.empty((k,))
        for i in range(k):
            var[i] = sd[i] * sd[i]
    else:
        sd = [h.pos("s")] * k
        var = sd[0] * sd[0]
    l0, U0 = lt.copy(), U.copy()
    got = m.sample_ell(lt, var, U, prior_distr=pr, likelihood=lik)
    if len(D.gauss) != k or len(D.uniforms) != k:
        raise ImportError("regain: proposals are drawn differently")
    cur = [l0[i] for i in range(k)]

    def post(c, i):
        L = h.empty((p, p))
        r = 0
        for a in range(p):
            for b in range(a + 1):
                L[a, b] = c[r]
                r += 1
        return h.stub("lik", [gwp(h, U0, L)], ()) + pr.logpdf(c[i])
    for i in range(k):
        loc, scale, x = D.gauss[i]
        h.equal(loc, cur[i], "proposal centred at the current element")
        h.equal(scale, sd[i], "standard deviation of the proposal")
        new = list(cur)
        new[i] = x
        ratio = post(new, i) - post(cur, i)
        lu = np.log(D.uniforms[i])
        if lu < 0 and lu < ratio:
            cur = new
    for i in range(k):
        h.equal(got[i], cur[i], "element %d after its Metropolis-Hastings step" % i)
    h.equal(U, U0, "states unchanged")


def gp(h, n, nu, p):
    m = h.mod(GP)
    D = Draws(h)
    K = h.symmetric("K", n)
    K0 = K.copy()
    got = m.sample(K, nu=nu, p=p)
    h.check(np.shape(got) == (nu, p, n), "one sequence per replicate and series")
    for mean, cov, x in D.normals:
        h.equal(mean, np.zeros(n), "zero mean")
        h.equal(cov, K0, "covariance of the sequences")
    h.equal(K, K0, "kernel unchanged")


def chain(h, iters, learn, p=2, N=1, nu=1):
    """Stored states belong together: log likelihood, factors, scale, kernel parameter of each iteration."""
    m = h.mod(WP)
    D = Draws(h)
    lik = Lik(h)
    log = {"gp": [], "slice": [], "hyper": [], "ell": []}

    def kern(inverse_width):
        return h.stub("kern", [inverse_width], (N, N))

    def sample_gp(K, nu=1, p=3):
        u = h.array("gp%d" % len(log["gp"]), (nu, p, N))
        log["gp"].append((K, nu, p, u.copy()))
        return u

    def eslice(state, prior, likelihood=None, **k):
        log["slice"].append((state.xx.copy(), state.L.copy(), state.log_likelihood, prior.copy()))
        if h.flag("moved%d" % len(log["slice"])):
            x = h.array("xx%d" % len(log["slice"]), (nu, p, N))
            state["xx"] = x
            state["V"] = gwp(h, x, state.L)
            state["log_likelihood"] = likelihood(state["V"])
        return state

    def hyper_(theta, var, ustack, kern, prior_distr):
        i = len(log["hyper"])
        acc = h.flag("acc%d" % i)
        new = h.pos("theta%d" % i) if acc else theta
        log["hyper"].append((theta, var, ustack.copy(), prior_distr, new, acc))
        return new, acc

    def ell_(Ltau, var, umat, prior_distr, likelihood=None):
        i = len(log["ell"])
        new = h.array("ell%d" % i, (p * (p + 1) // 2,))
        log["ell"].append((Ltau.copy(), var, umat.copy(), prior_distr, new.copy()))
        return new
    h.override(WP + ".sample_gp", sample_gp)
    h.override(WP + ".elliptical_slice", eslice)
    h.override(WP + ".sample_hyper_kernel", hyper_)
    h.override(WP + ".sample_ell", ell_)
    L0 = None if learn else h.array("L", (p, p))
    th = h.pos("start")
    vp, vl = h.pos("vp"), h.pos("vl")
    out = m.fit(th, vp, "pk", vl, "pe", kern, p, nu=nu, n_iter=iters, likelihood=lik, L=L0 if learn else L0.copy())
    if not (len(log["slice"]) == len(log["hyper"]) == iters and len(log["ell"]) == (iters if learn else 0)):
        raise ImportError("regain: the chain is composed differently")
    us, lls, thetas = out[0], out[1], out[2]
    Ls = out[3] if learn else [L0] * iters
    h.check(len(us) == len(lls) == len(thetas) == len(Ls) == iters, "one state per iteration")
    g = 1
    cur_t = th
    xs = log["gp"][0][3]
    h.equal(log["gp"][0][0], h.stub("kern", [th], (N, N)), "first state drawn with the starting kernel")
    for i in range(iters):
        sx, sL, sll, _ = log["slice"][i]
        h.equal(sx, xs if i == 0 else us[i - 1], "update %d starts from the previous state" % i)
        if i:
            h.equal(sL, Ls[i - 1], "update %d uses the previous scale" % i)
        h.equal(sll, h.stub("lik", [gwp(h, sx, sL)], ()), "update %d starts from the log likelihood of the state" % i)
        t0, v0, stack, pk, new, acc = log["hyper"][i]
        h.equal(t0, cur_t, "kernel parameter carried over")
        h.equal(v0, vp, "proposal variance of the kernel parameter")
        h.check(pk == "pk", "prior of the kernel parameter")
        cur_t = new
        h.equal(thetas[i], cur_t, "kernel parameter of iteration %d" % i)
        if acc:
            if g >= len(log["gp"]):
                raise ImportError("regain: factors are resampled differently")
            h.equal(log["gp"][g][0], h.stub("kern", [cur_t], (N, N)), "factors resampled with the accepted kernel")
            h.equal(us[i], log["gp"][g][3], "resampled factors of iteration %d" % i)
            g += 1
        if learn:
            e = log["ell"][i]
            h.equal(e[1], vl, "proposal variance of the scale")
            h.equal(e[2], us[i], "scale updated given the current factors")
            h.check(e[3] == "pe", "prior of the scale")
            if i:
                h.equal(e[0], log["ell"][i - 1][4], "scale carried over")
            L = h.empty((p, p))
            r = 0
            for a in range(p):
                for b in range(a + 1):
                    L[a, b] = e[4][r]
                    r += 1
            h.equal(Ls[i], L, "scale of iteration %d" % i)
        h.equal(lls[i], h.stub("lik", [gwp(h, us[i], Ls[i])], ()), "log likelihood of the state of iteration %d" % i)


def prediction(h, n, N, p, v):
    m = h.mod(WP)
    B, _ = kernel_matrix(h, N)
    A = h.array("A", (n, N))
    tt, tr = h.array("tt", (n,)), h.array("tr", (N,))
    w = h.pos("w")
    U, L = h.array("U", (v, p, N)), h.array("L", (p, p))
    h.exact_inverse()
    calls = []

    def kern(X, Y=None, inverse_width=None):
        calls.append((X.copy(), None if Y is None else Y.copy(), inverse_width))
        return B.copy() if Y is None else A.copy()
    got = m.predict(tt, tr, U, L, kern, w)
    for X, Y, iw in calls:
        h.equal(iw, w, "kernel parameter")
        h.equal(X, (tr if Y is None else tt)[:, None], "times of the kernel")
        if Y is not None:
            h.equal(Y, tr[:, None], "training times of the kernel")
    if len(calls) != 2:
        raise ImportError("regain: kernels are computed differently")
    inv = np.linalg.inv(B)
    S = h.empty((v, p, n))
    for k in range(v):
        for a in range(p):
            for t in range(n):
                S[k, a, t] = sum([A[t, i] * inv[i, j] * U[k, a, j] for i in range(N) for j in range(N)], h.lit(0))
    h.equal(got, gwp(h, S, L), "covariances of the conditional mean of the process at the test times")


def kernel_matrix(h, N):
    B = h.empty((N, N))
    for i in range(N):
        for j in range(i):
            B[i, j] = B[j, i] = h.real("B_%d_%d" % (i, j))
        B[i, i] = h.pos("B_%d_%d" % (i, i))
    if N == 2:
        h.assume(B[0, 0] * B[1, 1] > B[0, 1] * B[0, 1])
    h.use_known()
    return B, None


def rbf(h, n, m_, two, norm):
    m = h.mod(WP)
    X = h.array("X", (n, 1))
    Y = h.array("Y", (m_, 1)) if two else X
    var, w = h.pos("var"), h.pos("w")
    got = m._rbf_kernel(X, Y=Y if two else None, var=var, inverse_width=w, normalised=norm)
    want = h.empty((n, Y.shape[0]))
    for i in range(n):
        for j in range(Y.shape[0]):
            want[i, j] = var * np.exp(-w * (X[i, 0] - Y[j, 0]) ** 2 / 2)
            if norm:
                want[i, j] = want[i, j] * np.sqrt(w / (2 * np.pi))
    h.equal(got, want, "squared exponential kernel of the times")


LABELS = {"a": [0, 0, 1, 1], "b": [3, 1, 3, 1, 1], "c": [7, 7]}


def estimator(h, labels, iters, burn, learn, centered):
    """Selection after the burn-in and the attributes of the fitted process."""
    a, b = Normal(h), Normal(h, True)
    h.override("scipy.stats.norm", a)
    h.override("scipy.stats.lognorm", b)
    m = h.mod(WP)
    y = np.array(LABELS[labels])
    cl = sorted(set(LABELS[labels]))
    T, p = len(cl), 2
    X = h.array("X", (len(y), p))
    seen = []
    us = [h.array("u%d" % i, (1, p, T)) for i in range(iters)]
    lls = h.array("ll", (iters,))
    lps = h.array("lp", (iters,))
    Ls = [h.array("L%d" % i, (p, p)) for i in range(iters)]

    def fit(*a, **k):
        if a:
            raise ImportError("regain: fit is called differently")
        seen.append(k)
        return [us, lls, lps] + ([Ls] if k.get("L") is None else [])
    h.override(WP + ".fit", fit)
    if not learn:
        h.override("numpy.linalg.cholesky", lambda c: h.stub("chol", [c], (p, p)))
    inverted = []

    def pinvh(c, **k):
        inverted.append(c)
        return h.stub("pinvh", [c], (p, p))
    h.override("scipy.linalg.pinvh", pinvh)
    X0, y0 = X.copy(), y.copy()
    est = m.WishartProcess(theta=3, var_prop=2, mu_prior=1, var_prior=4, var_Lprop=5, mu_Lprior=6, var_Lprior=9, n_iter=iters,
                           burn_in=burn, assume_centered=centered, learn_ell=learn)
    est.fit(X, y)
    if len(seen) != 1:
        raise ImportError("regain: the chain is run differently")
    if len(inverted) != T:
        raise ImportError("regain: precisions are computed differently")
    k = seen[0]
    h.equal(k["theta"], 3, "starting kernel parameter")
    h.equal(k["var_prop"], 2, "proposal variance of the kernel parameter")
    h.equal(k["var_Lprop"], 5, "proposal variance of the scale")
    h.equal(k["n_iter"], iters, "number of iterations")
    h.equal(k["p"], p, "number of variables")
    # priors
    if len(a.made) != 1 or len(b.made) != 1:
        raise ImportError("regain: priors are built differently")
    pa, pb = a.made[0][1], b.made[0][1]
    h.equal(pa["loc"], 6, "mean of the prior of the scale")
    h.equal(pa["scale"], 3, "deviation of the prior of the scale")
    s2 = pb["s"] * pb["s"]
    h.equal(np.log(pb["scale"]) + s2 / 2, 0, "mean of the prior of the kernel parameter", tol=1e-4)
    h.equal(np.exp(s2), 5, "variance of the prior of the kernel parameter")
    # likelihood of the data
    loc = h.empty((T, p))
    if not centered:
        for t, c in enumerate(cl):
            rows = [i for i in range(len(y)) if y[i] == c]
            for j in range(p):
                loc[t, j] = sum([X0[i, j] for i in rows], h.lit(0)) / len(rows)
    h.equal(est.location_, loc, "means of the classes")
    h.check(list(est.classes_) == cl, "classes")
    C = h.empty((p, p, T))
    dg = [h.pos("dg%d" % t) for t in range(T)]
    for t in range(T):
        C[0, 0, t] = C[1, 1, t] = dg[t]
    h.use_known()
    want = h.lit(0)
    for t, c in enumerate(cl):
        for i in range(len(y)):
            if y[i] == c:
                q = sum([(X0[i, j] - loc[t, j]) ** 2 for j in range(p)], h.lit(0)) / dg[t]
                want = want - (q + p * np.log(dg[t]) + p * h.log2pi()) / 2
    h.equal(k["likelihood"](C), want, "likelihood of the centred data of each class")
    K = k["kern"](inverse_width=h.lit(2))
    ref = np.array([[float(np.exp(-(i - j) ** 2)) if i != j else 1.0 for j in cl] for i in cl])
    for i in range(T):
        h.equal(K[i, i], 1, "unit variance of the process")
    # selection
    best = burn
    for i in range(burn + 1, iters):
        if lls[i] > lls[best]:
            best = i
    h.equal(est.u_map, us[best], "factors of the most likely state after the burn-in")
    h.equal(est.lmap, lps[best], "kernel parameter of the most likely state after the burn-in")
    if learn:
        L = Ls[best]
    else:
        cov = h.empty((p, p))
        n = len(y)
        mean = [sum([X0[i, j] for i in range(n)], h.lit(0)) / n for j in range(p)]
        for r in range(p):
            for s in range(p):
                cov[r, s] = sum([(X0[i, r] - mean[r]) * (X0[i, s] - mean[s]) for i in range(n)], h.lit(0)) / n
        L = h.stub("chol", [cov], (p, p))
    h.equal(est.Lmap, L, "scale of the most likely state after the burn-in")
    D = gwp(h, us[best], L)
    h.equal(est.D_map, D, "covariances of the most likely state")
    for t in range(T):
        h.equal(est.covariance_[t], D[:, :, t], "covariance of time %d" % t)
        h.equal(est.precision_[t], h.stub("pinvh", [D[:, :, t]], (p, p)), "precision of time %d is the pseudo-inverse" % t)
    h.check(len(est.loglikes_after_burnin) == iters - burn, "states after the burn-in")
    h.equal(X, X0, "data unchanged")
    h.check(np.array_equal(y, y0), "labels unchanged")


def score(h, labels):
    """Log likelihood of new data, centred with the fitted locations."""
    a, b = Normal(h), Normal(h, True)
    h.override("scipy.stats.norm", a)
    h.override("scipy.stats.lognorm", b)
    m = h.mod(WP)
    y = np.array(LABELS[labels])
    cl = sorted(set(LABELS[labels]))
    T, p = len(cl), 2
    X, loc = h.array("X", (len(y), p)), h.array("loc", (T, p))
    est = m.WishartProcess()
    est.classes_, est.location_ = np.array(cl), loc
    C = h.empty((p, p, T))
    want = h.lit(0)
    for t, c in enumerate(cl):
        l0, l1, l2 = h.pos("c%d_0" % t), h.real("c%d_1" % t), h.pos("c%d_2" % t)
        C[0, 0, t], C[0, 1, t], C[1, 0, t], C[1, 1, t] = l0 * l0, l0 * l1, l0 * l1, l1 * l1 + l2 * l2
        for i in range(len(y)):
            if y[i] == c:
                z0 = (X[i, 0] - loc[t, 0]) / l0
                z1 = (X[i, 1] - loc[t, 1] - l1 * z0) / l2
                want = want - (z0 * z0 + z1 * z1) / 2 - np.log(l0) - np.log(l2) - h.log2pi()
    est.D_map = C
    X0 = X.copy()
    h.use_known()
    h.equal(est.score(X, y), want, "log likelihood of the data under the covariance of their class")
    h.equal(X, X0, "data unchanged")


def tasks(T, tier):
    for v, p, N in ((1, 1, 1), (1, 2, 1), (2, 2, 2), (1, 2, 3), (3, 2, 1)):
        yield T("construct", dict(v=v, p=p, N=N))
    for iters in (1, 2, 3):
        yield T("slice_", dict(v=1, p=1, N=1, iters=iters, prior="sample", angle=False, start=True))
        yield T("slice_", dict(v=1, p=1, N=1, iters=iters, prior="sample", angle=True, start=True))
    yield T("slice_", dict(v=1, p=2, N=2, iters=1, prior="sample", angle=False, start=True))
    yield T("slice_", dict(v=1, p=2, N=1, iters=2, prior="chol", angle=False, start=True))
    yield T("slice_", dict(v=1, p=2, N=1, iters=1, prior="sample", angle=False, start=False))
    yield T("slice_errors", {})
    for n, N in ((1, 1), (2, 2)):
        yield T("hyper", dict(n=n, N=N))
    yield T("ell", dict(p=1, v=1, N=1, vector=False))
    yield T("ell", dict(p=2, v=1, N=1, vector=False))
    yield T("ell", dict(p=2, v=1, N=1, vector=True))
    yield T("gp", dict(n=2, nu=1, p=2))
    yield T("gp", dict(n=1, nu=2, p=3))
    for iters in (1, 2):
        for learn in (True, False):
            yield T("chain", dict(iters=iters, learn=learn))
    for n, N, p, v in ((1, 1, 2, 1), (1, 2, 2, 1), (2, 2, 1, 2)):
        yield T("prediction", dict(n=n, N=N, p=p, v=v))
    for two in (False, True):
        yield T("rbf", dict(n=2, m_=1, two=two, norm=two))
    yield T("estimator", dict(labels="a", iters=3, burn=1, learn=True, centered=False))
    yield T("estimator", dict(labels="b", iters=2, burn=0, learn=True, centered=False))
    yield T("estimator", dict(labels="a", iters=2, burn=0, learn=False, centered=True))
    for l in ("a", "b", "c"):
        yield T("score", dict(labels=l))
    if tier == "thorough":
        yield T("slice_", dict(v=1, p=1, N=1, iters=4, prior="sample", angle=False, start=True), paths=3000, budget=600)
        yield T("slice_", dict(v=2, p=2, N=2, iters=1, prior="sample", angle=True, start=True), budget=600)
        yield T("ell", dict(p=2, v=2, N=2, vector=True), budget=600)
        yield T("chain", dict(iters=3, learn=True), paths=5000, budget=900)
        yield T("chain", dict(iters=2, learn=True, N=2, nu=2), paths=5000, budget=900)
        yield T("estimator", dict(labels="b", iters=4, burn=1, learn=True, centered=False), paths=3000, budget=600)
