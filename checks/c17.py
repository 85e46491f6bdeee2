"""C17: forward-backward solver of the time-varying graphical lasso."""
import numpy as np

import estimators as E

FB = "regain.forward_backward.forward_backward"
TG = "regain.forward_backward.time_graphical_lasso_"
BOUNDS = ("2 or 3 time points (gradient and objective: up to 4), 2x2 matrices with arbitrary real entries (positive definite where a logarithm of the determinant is "
          "differentiated); any alpha, beta, step sizes, weights; line searches of up to 3 (thorough: 4) trials, solver runs of 1..2 "
          "iterations; temporal norm 1 or squared (Laplacian)")
ASSUMPTIONS = ["prox_tv.tvgen/tv1_1d return the exact total-variation proximal point (two time points: closed form)",
               "line searches inside the solver are cut to 2 trials (the searches themselves are decided separately)"]


def det2(K):
    return K[0, 0] * K[1, 1] - K[0, 1] * K[1, 0]


def is_pd(h, K):
    return bool(h.mod("regain.utils").positive_definite(K))       # decided by C22


def params(h, T):
    """Free parameters of T symmetric 2x2 matrices and the map to the batch."""
    xs = []
    for t in range(T):
        xs += [h.pos("K%d_00" % t), h.real("K%d_10" % t), h.pos("K%d_11" % t)]

    def build(v):
        K = np.zeros((T, 2, 2))
        for t in range(T):
            K[t, 0, 0], K[t, 1, 1] = v[3 * t], v[3 * t + 2]
            K[t, 1, 0] = K[t, 0, 1] = v[3 * t + 1]
        return K
    return xs, build


def gradient(h, T, laplacian):
    """The gradient is the derivative of the loss the line search uses."""
    m = h.mod(TG)
    h.exact_inverse()
    xs, build = params(h, T)
    K = build(xs)
    for t in range(T):
        h.assume(det2(K[t]) > 0)
        if not h.sym:
            h.assume(det2(K[t]) > 0.05)
    h.use_known()
    S = h.symmetrics("S", T, 2)
    n = h.array("n", (T,), pos=True)
    eps, beta = h.nonneg("vareps"), h.nonneg("beta")
    K0, S0, n0 = K.copy(), S.copy(), n.copy()
    if laplacian:
        g = m.grad_loss_laplacian(K, S, beta=beta, n_samples=n, vareps=eps)
        d = h.derivs(lambda v: m.loss_laplacian(S, build(v), beta=beta, n_samples=n, vareps=eps), xs)
    else:
        g = m.grad_loss(K, S, n, vareps=eps)
        d = h.derivs(lambda v: m.loss(S, build(v), n_samples=n, vareps=eps), xs)
    for a, b, nm in ((K, K0, "point"), (S, S0, "covariance"), (n, n0, "sample counts")):
        h.equal(a, b, nm + " unchanged")
    for t in range(T):
        h.equal(g[t, 0, 0], d[3 * t], "derivative", tol=1e-4)
        h.equal(g[t, 1, 1], d[3 * t + 2], "derivative", tol=1e-4)
        h.equal(g[t, 0, 1] + g[t, 1, 0], d[3 * t + 1], "derivative off the diagonal", tol=1e-4)
        h.equal(g[t, 0, 1], g[t, 1, 0], "symmetric")


def abs_od(K):
    s = 0
    for t in range(K.shape[0]):
        for i in range(2):
            for j in range(2):
                if i != j:
                    s = s + np.abs(K[t, i, j])
    return s


def ref_loss(h, S, K, n, eps):
    s = h.lit(0)
    for t in range(K.shape[0]):
        sign, ld = np.linalg.slogdet(K[t])
        s = s - n[t] * (np.where(sign > 0, ld, -np.inf) - (S[t] * K[t]).sum())
    return s + eps / 2 * (K * K).sum()


def objective(h, T, laplacian):
    m = h.mod(TG)
    K, S = h.symmetrics("K", T, 2), h.symmetrics("S", T, 2)
    n = h.array("n", (T,), pos=True)
    eps, alpha, beta = h.nonneg("vareps"), h.nonneg("alpha"), h.nonneg("beta")
    L = ref_loss(h, S, K, n, eps)
    if laplacian:
        d = h.lit(0)
        for t in range(1, T):
            d = d + ((K[t] - K[t - 1]) * (K[t] - K[t - 1])).sum()
        h.equal(m.objective_laplacian(n, S, K, alpha, beta, vareps=eps), L + alpha * abs_od(K) + beta * d, "objective")
        h.equal(m.loss_laplacian(S, K, beta=beta, n_samples=n, vareps=eps), L + beta * d, "smooth part")
        h.equal(m.penalty_laplacian(K, alpha), alpha * abs_od(K), "penalty")
    else:
        d = h.lit(0)
        for t in range(1, T):
            d = d + np.abs(K[t] - K[t - 1]).sum()
        psi = lambda x: np.abs(x).sum()
        h.equal(m.objective(n, S, K, alpha, beta, psi, vareps=eps), L + alpha * abs_od(K) + beta * d, "objective")
        h.equal(m.loss(S, K, n_samples=n, vareps=eps), L, "smooth part")
        h.equal(m.penalty(K, alpha, beta, psi), alpha * abs_od(K) + beta * d, "penalty")


def soft(x, l):
    return np.sign(x) * np.maximum(np.abs(x) - l, 0)


def ref_prox(h, a, beta, lam, laplacian=False):
    """Two time points: total variation, then soft-thresholding off the diagonal."""
    Y = a.copy()
    if not laplacian and a.shape[0] == 2:
        for i in range(2):
            for j in range(2):
                d = a[1, i, j] - a[0, i, j]
                s = np.sign(d) * np.minimum(beta, np.abs(d) / 2)
                Y[0, i, j] = a[0, i, j] + s
                Y[1, i, j] = a[1, i, j] - s
    for t in range(a.shape[0]):
        for i in range(2):
            for j in range(2):
                if i != j:
                    Y[t, i, j] = soft(Y[t, i, j], lam)
    return Y


def fused(h, optimize, symmetric):
    p = h.mod("regain.prox")
    a = h.symmetrics("a", 2, 2)
    a0 = a.copy()
    beta, lam = h.nonneg("beta"), h.nonneg("lam")
    out = p.prox_FL(a, beta, lam, p=1, symmetric=symmetric, optimize=optimize)
    h.equal(out, ref_prox(h, a0, beta, lam), "fused-lasso proximal point with the diagonal not thresholded")
    h.equal(a, a0, "input unchanged")


def gamma(h, N, choose, laplacian, T=2):
    """The step search returns the first trial that meets its test, and the point of that step."""
    m = h.mod(FB)
    x, grad = h.symmetrics("x", T, 2), h.symmetrics("g", T, 2)
    g0, eps, delta, lamda = h.pos("gamma"), h.pos("eps"), h.pos("delta"), h.pos("lamda")
    alpha, beta = h.nonneg("alpha"), h.nonneg("beta")
    f = lambda K: h.stub("f", [K], ())
    x0, grad0 = x.copy(), grad.copy()
    out, y = m.choose_gamma(g0, x, beta, alpha, lamda, grad, function_f=f, delta=delta, eps=eps, max_iter=N, choose=choose,
                            laplacian_penalty=laplacian)
    g = g0
    found = False
    for k in range(N):
        r = ref_prox(h, x0 - g * grad0, beta * g, alpha * g, laplacian)
        if choose == "gamma":
            d = r - x0
            ok = bool(f(x0 + lamda * d) - f(x0) <= lamda * ((d * grad0).sum() + delta / g * (d * d).sum()))
        else:
            ok = is_pd(h, r)
        if ok:
            found = True
            break
        g = g * eps
    if found:
        h.equal(out, g, "first step that meets the test")
    h.equal(y, r, "proximal point of the returned step")
    h.equal(x, x0, "point unchanged")
    h.equal(grad, grad0, "gradient unchanged")


def lamda(h, N, criterion):
    m = h.mod(FB)
    x, grad, prox = h.symmetrics("x", 1, 2), h.symmetrics("g", 1, 2), h.symmetrics("p", 1, 2)
    l0, gam, eps, delta = h.pos("lamda"), h.pos("gamma"), h.pos("eps"), h.pos("delta")
    f = lambda K: h.stub("f", [K], ())
    obj = lambda precision: h.stub("obj", [precision], ())
    pen = lambda precision: h.stub("pen", [precision], ())
    gr = lambda x, x_inv=None: h.stub("grad", [x], (1, 2, 2))
    keep = [v.copy() for v in (x, grad, prox)]
    out, n = m.choose_lamda(l0, x, gam, delta=delta, eps=eps, function_f=f, objective_f=obj, gradient_f=gr, function_g=pen,
                            max_iter=N, criterion=criterion, grad=grad, prox=prox)
    for a, b in zip((x, grad, prox), keep):
        h.equal(a, b, "input unchanged")
    d = prox - x
    l = l0
    for k in range(N):
        x1 = x + l * d
        if criterion == "a":
            e = gr(x1) - grad
            s = x1 - x
            ok = bool(np.sqrt((e * e).sum()) <= delta * np.sqrt((s * s).sum()) / (gam * l))
        elif criterion == "b":
            ok = bool(f(x1) - f(x) <= l * ((d * grad).sum() + delta / gam * (d * d).sum()))
            ok = ok and is_pd(h, x1)
        else:
            ok = bool(obj(x1) - obj(x) <= l * (1 - delta) * (pen(prox) - pen(x) + (d * grad).sum()))
        if ok:
            break
        l = l * eps
    h.equal(out, l, "first relaxation that meets the test")
    h.equal(n, k + 1, "number of trials")


def cut(h, name, n):
    """Bound a line search of the solver."""
    real = getattr(h.mod(TG), name)

    def f(*a, **k):
        k["max_iter"] = n
        return real(*a, **k)
    h.override(TG + "." + name, f)
    return f


def solver(h, N, choose="fixed", laplacian=False, criterion="b", debug=False, lam=None):
    m = h.mod(TG)
    T = 2
    S, Z = h.symmetrics("S", T, 2), h.symmetrics("Z", T, 2)
    if choose != "fixed":       # the searches compare with the (finite) loss of the current point
        for t in range(T):
            Z[t, 0, 0], Z[t, 1, 1] = h.pos("Zd%d_0" % t), h.pos("Zd%d_1" % t)
            h.assume(det2(Z[t]) > 0)
        h.use_known()
    n = h.array("n", (T,), pos=True)
    alpha, beta, eps = h.nonneg("alpha"), h.nonneg("beta"), h.nonneg("vareps")
    gam, l = h.pos("gamma"), h.real("lamda")
    if lam is not None:
        l = h.lit(lam)
    delta, ls = h.pos("delta"), h.pos("eps")
    tol = h.pos("tol")
    before = [v.copy() for v in (S, Z, n)]
    if choose != "fixed":       # its value is decided by C22, its use by the search harnesses
        h.override(FB + ".positive_definite", lambda *a: True)
    cg = cut(h, "choose_gamma", 1) if choose in ("gamma", "both") else None
    cl = cut(h, "choose_lamda", 1) if choose in ("lamda", "both") else None
    K, C, hist, it = m.tgl_forward_backward(S, alpha=alpha, beta=beta, max_iter=N, n_samples=n, tol=tol, delta=delta, gamma=gam,
                                            lamda=l, eps=ls, choose=choose, lamda_criterion=criterion, vareps=eps, init=Z,
                                            laplacian_penalty=laplacian, return_history=True, debug=debug)
    for a, b in zip((S, Z, n), before):
        h.equal(a, b, "input unchanged")
    from scipy import linalg
    R, g = before[1].copy(), gam
    psi = lambda x: np.abs(x).sum()
    if laplacian:
        floss = lambda K: m.loss_laplacian(S, K, beta=beta, n_samples=n, vareps=eps)
        fgrad = lambda x, x_inv=None: m.grad_loss_laplacian(x, S, beta=beta, n_samples=n, x_inv=x_inv, vareps=eps)
        fobj = lambda precision: m.objective_laplacian(n, S, precision, alpha, beta, vareps=eps)
        fpen = lambda precision: m.penalty_laplacian(precision, alpha)
    else:
        floss = lambda K: m.loss(S, K, n_samples=n, vareps=eps)
        fgrad = lambda x, x_inv=None: m.grad_loss(x, S, n, x_inv=x_inv, vareps=eps)
        fobj = lambda precision: m.objective(n, S, precision, alpha, beta, psi, vareps=eps)
        fpen = lambda precision: m.penalty(precision, alpha, beta, psi)
    top = None
    conv = False
    for k in range(N):
        inv = np.array([linalg.pinvh(R[t]) for t in range(T)])
        grad = np.zeros((T, 2, 2))
        for t in range(T):
            grad[t] = n[t] * (S[t] - inv[t]) + eps * R[t]
        if laplacian:
            grad[0] = grad[0] + 2 * beta * (R[0] - R[1])
            grad[1] = grad[1] + 2 * beta * (R[1] - R[0])
        if choose in ("gamma", "both"):
            if k:
                g = g / ls
            g, y = cg(g, R, beta, alpha, l, grad, function_f=floss, delta=delta, eps=ls, choose=choose,
                      laplacian_penalty=laplacian)
        else:
            y = ref_prox(h, R - g * grad, beta * g, alpha * g, laplacian)
        if choose in ("lamda", "both"):
            if k:
                l = l / ls
            l, tr = cl(np.minimum(l, 1), R, function_f=floss, objective_f=fobj, gradient_f=fgrad, function_g=fpen, gamma=g,
                       delta=delta, eps=ls, criterion=criterion, grad=grad, prox=y)
        w = np.minimum(np.maximum(l, 0), 1)
        new = R + w * (y - R)
        diff = np.sqrt(((new - R) * (new - R)).sum()) / g
        top = diff if top is None else np.maximum(top, diff)
        x_hat = R - g * grad
        sub = (x_hat - new) / g
        norm = np.maximum(np.sqrt((grad * grad).sum()), np.sqrt((sub * sub).sum())) + 1e-6
        R = new
        if k > 0 and not debug:
            if diff / top <= tol:
                conv = True
            elif diff / norm <= tol:
                conv = True
        if conv:
            break
    h.equal(K, R, "iterate is the relaxed proximal-gradient point")
    h.equal(it, k + 1, "number of iterations")
    if N == 1:
        h.equal(hist[0].obj, fobj(before[1]), "starting objective")
        h.equal(hist[-1].obj, fobj(R), "objective of the new iterate")
    h.equal(C, np.array([linalg.pinvh(R[t]) for t in range(T)]), "covariance")
    h.check(len(hist) == k + 2, "one record per iteration after the starting one")


def estimator(h, kw):
    """The estimator passes on its data and parameters."""
    m = h.mod(TG)
    X = h.array("X", (3, 2))
    y = np.array([1, 0, 1])
    par = dict(alpha=h.nonneg("alpha"), beta=h.nonneg("beta"), tol=h.pos("tol"), max_iter=1, gamma=h.pos("gamma"),
               lamda=h.real("lamda"), eps=h.pos("eps"), delta=h.pos("delta"), vareps=h.nonneg("vareps"),
               init=h.symmetrics("Z", 2, 2), **kw)
    if par.get("choose") == "gamma":
        cut(h, "choose_gamma", 1)
    e = m.TimeGraphicalLassoForwardBackward(return_history=True, return_n_linesearch=True, **par)
    h.check(e.fit(X, y) is e, "fit returns the estimator")
    covs, ns = [], []
    for rows in ([1], [0, 2]):
        c, mu = E.covariance(h, X, rows, True)
        covs.append(c)
        ns.append(len(rows))
    out = m.tgl_forward_backward(np.array(covs), n_samples=np.array(ns), return_history=True, return_n_iter=True,
                                 return_n_linesearch=True, **par)
    h.equal(e.precision_, out[0], "precision")
    h.equal(e.covariance_, out[1], "covariance")
    h.check(len(e.history_) == len(out[2]), "history")
    h.equal(e.n_iter_, out[3], "iterations")
    h.equal(e.n_linesearch_, out[4], "line-search trials")


def tasks(T, tier):
    th = tier == "thorough"
    for lap in (False, True):
        for t in (2, 3):
            yield T("gradient", dict(T=t, laplacian=lap), samples=40)
            yield T("objective", dict(T=t, laplacian=lap))
        yield T("gradient", dict(T=4, laplacian=lap), samples=40)
        yield T("objective", dict(T=4, laplacian=lap))
    for o in (True, False):
        for s in (True, False):
            yield T("fused", dict(optimize=o, symmetric=s))
    for lap in (False, True):
        yield T("gamma", dict(N=3, choose="gamma", laplacian=lap, T=1), paths=2000)
        yield T("gamma", dict(N=2 if lap or th else 1, choose="gamma", laplacian=lap), paths=2000, budget=300)
        yield T("gamma", dict(N=3, choose="both", laplacian=lap, T=1), paths=2000)
        yield T("gamma", dict(N=1 if not th else 2, choose="both", laplacian=lap), paths=2000, budget=300)
    for c in "abc":
        yield T("lamda", dict(N=4 if th else 3, criterion=c))
    for lap in (False, True):
        yield T("solver", dict(N=1, laplacian=lap))
        if lap or th:
            yield T("solver", dict(N=2, laplacian=lap, lam=1), budget=300)
        yield T("solver", dict(N=2, laplacian=lap, debug=True))
        if lap or th:
            yield T("solver", dict(N=1, choose="gamma", laplacian=lap), budget=300)
        for c in "abc" if th else "bc" if lap else "":
            yield T("solver", dict(N=1, choose="lamda", criterion=c, laplacian=lap), budget=400)
        if lap or th:
            yield T("estimator", dict(kw=dict(choose="fixed", laplacian_penalty=lap)))
    yield T("solver", dict(N=1, choose="both", laplacian=True))
    yield T("estimator", dict(kw=dict(choose="fixed", debug=True)))
