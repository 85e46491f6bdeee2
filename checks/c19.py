"""C19: time-varying Ising and Poisson graphical models."""
import numpy as np

import c18
import estimators as E
import refs
from solvers import kernel_input

G = "regain.generalized_linear_model."
BOUNDS = ("1..3 time points (thorough: 4) of 1..2 samples with 2 variables, all real data, symmetric kernels with entries >= 0, alpha >= 0, "
          "rho, step size and tolerances > 0; 1..2 outer iterations (thorough: 3); temporal penalties laplacian, l1, l2; "
          "estimators on fixed small data sets with all parameters symbolic")
ASSUMPTIONS = ["the per-time subproblem solver is an opaque function of its data and of the consensus term it is given (its "
               "iterations are decided by C18), except in the end-to-end runs",
               "the kernel-parameter search (ker_param='auto') and the Similarity classes are outside of the claim"]


def tri(h, name, args, d):
    v = h.stub(name, args, (d * (d + 1) // 2,))
    out = np.zeros((d, d))
    k = 0
    for i in range(d):
        for j in range(i + 1):
            out[i, j] = out[j, i] = v[k]
            k += 1
    return out


class Inner(object):
    """Stands for the per-time solver: opaque in the data, the penalty, the step size and the consensus term
    (c/2)||K - A||^2, given as c and c*A."""

    def __init__(self, h, kind, d):
        self.h, self.kind, self.d, self.n = h, kind, d, 0
        name = "_fit" if kind == "ising" else "fit_each_variable"
        h.override(G + "glm_time_%s.%s" % (kind, name), self.ising if kind == "ising" else self.poisson)

    def matrix(self, X, c, cA, alpha, gamma):
        if self.kind == "ising":
            return tri(self.h, "fit", [X, c, cA, alpha, gamma], self.d)
        return c18.join(self.h, [self.row(X, v, c, cA, alpha, gamma) for v in range(self.d)], "union")

    def row(self, X, v, c, cA, alpha, gamma):
        return self.h.stub("row%d" % v, [X, c, cA[v, :], alpha, gamma], (self.d - 1,))

    def ising(self, X, alpha=None, gamma=None, A=None, rho=None, T=None, **kw):
        self.n += 1
        return [self.matrix(X, rho * T, rho * T * A, alpha, gamma)]

    def poisson(self, X, ix, alpha=None, gamma=None, A=None, rho=None, T=None, **kw):
        self.n += 1
        return [self.row(X, ix, rho * T, rho * T * A, alpha, gamma)]

    def used(self):
        if not self.n:
            raise ImportError("regain: per-time solver is called differently")


def objective(h, kind, X, K, P, alpha, pairs, psi):
    s = h.lit(0)
    d = X.shape[2]
    for t in range(X.shape[0]):
        for r in range(d):
            s = s + c18.nll(h, kind, X[t], r, [K[t][r, j] for j in c18.others(d, r)])
        s = s + alpha * refs.l1_od(K[t])
    for i, (a, b, w) in enumerate(pairs):
        s = s + w * refs.penalty(psi, P[i][1] - P[i][0])
    return s


def reference(h, kind, X, alpha, gamma, rho, kernel, psi, N, hist, opts, solve, stop=None):
    """Consensus over the pairs: hist gives the tolerances the code reports (their scale is not documented)."""
    T, n, d = X.shape
    pairs = refs.all_pairs(kernel)
    z = np.zeros((d, d))
    K = [z] * T
    P = [[z, z] for _ in pairs]
    V = [[z, z] for _ in pairs]
    out = refs.Out()
    out.recs = []
    out.obj0 = objective(h, kind, X, K, P, alpha, pairs, psi)
    for it in range(N):
        K = []
        for t in range(T):
            acc, cnt = np.zeros((d, d)), 0
            for i, (a, b, w) in enumerate(pairs):
                for side, x in ((0, a), (1, b)):
                    if x == t:
                        acc = acc + P[i][side] - V[i][side]
                        cnt += 1
            K.append(solve(X[t], rho * cnt, rho * refs.symm(acc), alpha, gamma))
        old = P
        P, W = [], []
        for i, (a, b, w) in enumerate(pairs):
            x, y = refs.prox_pair(psi, K[a] + V[i][0], K[b] + V[i][1], w / rho)
            P.append([x, y])
            W.append([V[i][0] + K[a] - x, V[i][1] + K[b] - y])
        V = W
        r = refs.fro(*[K[p[s]] - P[i][s] for i, p in enumerate(pairs) for s in (0, 1)]) if pairs else 0
        s = rho * refs.fro(*[P[i][s] - old[i][s] for i in range(len(pairs)) for s in (0, 1)]) if pairs else 0
        out.recs.append((objective(h, kind, X, K, P, alpha, pairs, psi), r, s))
        out.n_iter = it + 1
        rec = hist[it + 1] if len(hist) > it + 1 else None
        if rec is None:
            break
        if stop is not None and np.abs(rec.obj - stop[0]) / np.abs(stop[0]) < stop[1]:
            break
        if r <= rec.e_pri and s <= rec.e_dual:
            out.converged = True
            break
        new = refs.adapt(rho, r, s, **(opts or {}))
        V = [[u * (rho / new) for u in v] for v in V]
        rho = new
    out.K = K
    return out


def solver(h, kind, T, n=1, N=1, psi="laplacian", upd="fixed", kernel="given", endless=False, real=False, obj=True, d=2):
    m = h.mod(G + "glm_time_" + kind)
    X = h.array("X", (T, n, d))
    X0 = X.copy()
    alpha, rho, gamma = h.nonneg("alpha"), h.pos("rho"), h.pos("gamma")
    tol, rtol = (h.lit(-1), h.lit(0)) if endless else (h.pos("tol"), h.pos("rtol"))
    kw = dict(alpha=alpha, rho=rho, gamma=gamma, max_iter=N, tol=tol, rtol=rtol, psi=psi, return_history=True, return_n_iter=True)
    opts = None
    if upd == "fixed":
        opts = dict(mu=float("inf"))
    elif upd:
        opts = dict(mu=h.pos("mu"), tau_inc=h.pos("tau_inc"), tau_dec=h.pos("tau_dec"))
    kw["update_rho_options"] = opts
    k = np.eye(T)
    if kernel == "given":
        k = kernel_input(h, "k", T)
        kw["kernel"] = k
    k0 = k.copy()
    inner = None if real else Inner(h, kind, d)
    h.reset_warnings()
    K, hist, it = getattr(m, "_fit_time_%s_model" % kind)(X, **kw)
    warned = [w for w in h.warned() if "converge" in w.lower()]
    if inner:
        inner.used()
    h.equal(X, X0, "data unchanged")
    h.equal(k, k0, "kernel unchanged")
    if real:
        def solve(Xt, c, cA, alpha, gamma):
            cur = np.zeros((d, d))
            for _ in range(N):
                new = step(h, Xt, cur, alpha, gamma, c, cA)
                stop = c18.norm((new - cur).ravel()) < tol
                cur = new
                if stop:
                    break
            return cur
    else:
        solve = inner.matrix
    r = reference(h, kind, X0, alpha, gamma, rho, k0, psi, N, hist, opts, solve)
    h.equal(K, refs.stack(r.K), "matrices after the last iteration")
    h.equal(K, refs.T_(K), "symmetric")
    if kind == "poisson":
        for t in range(T):
            for i in range(d):
                h.equal(K[t, i, i], h.lit(1), "unit diagonal")
    elif real:
        for t in range(T):
            for i in range(d):
                h.equal(K[t, i, i], h.lit(0), "null diagonal")
    h.equal(it, r.n_iter, "number of iterations")
    h.check(len(hist) == r.n_iter + 1, "one record per iteration after the starting one")
    h.check((len(warned) > 0) == (not r.converged), "warning iff not converged")
    if obj:
        h.equal(hist[0].obj, r.obj0, "starting objective")
    for q, (o, a, b) in enumerate(r.recs):
        if obj:
            h.equal(hist[q + 1].obj, o, "objective of the iterate")
        h.equal(hist[q + 1].rnorm, a, "primal residual")
        h.equal(hist[q + 1].snorm, b, "dual residual")


def step(h, X, cur, alpha, gamma, c, cA):
    d = X.shape[1]
    g = np.zeros((d, d))
    for r in range(d):
        for j, v in zip(c18.others(d, r), c18.grad(h, "ising", X, r, [cur[r, q] for q in c18.others(d, r)])):
            g[r, j] = v
    new = np.zeros((d, d))
    for i in range(d):
        for j in range(d):
            v = cur[i, j] - gamma * ((g[i, j] + g[j, i]) / 2 + c * cur[i, j] - cA[i, j])
            new[i, j] = c18.soft(v, alpha * gamma) if i != j else v
    return new


def estimator(h, kind, y, kernel="array", psi="laplacian", N=1, history=False):
    m = h.mod(G + "glm_time_" + kind)
    y = np.array(y)
    vals = sorted(set(y.tolist()))
    T, n = len(vals), len(y)
    pool = [[1, 1], [1, -1], [-1, 1], [-1, -1]] if kind == "ising" else [[0, 3], [1, 2], [4, 1], [2, 2]]
    X = np.array([pool[(3 * i + i // 4) % 4] for i in range(n)], dtype=float)
    X0, y0 = X.copy(), y.copy()
    inner = Inner(h, kind, 2)
    par = dict(alpha=h.nonneg("alpha"), rho=h.pos("rho"), tol=h.pos("tol"), rtol=h.pos("rtol"), psi=psi, max_iter=N)
    if kind == "poisson":
        par["gamma"] = h.pos("gamma")
    s = dict(par)
    times = np.array(vals, dtype=float).reshape(-1, 1)
    if kernel == "array":
        k = kernel_input(h, "k", T)
        par["kernel"], s["kernel"] = k, k.copy()
    elif kernel == "none":
        s["kernel"] = np.eye(T)
    else:
        kc = E.ScaleKernel if kernel == "scale" else E.ConstKernel
        par["kernel"], par["ker_param"] = kc, h.pos("ker_param")
        s["kernel"] = kc(par["ker_param"])(times)
    cls = m.TemporalIsingModel if kind == "ising" else m.TemporalPoissonModel
    e = cls(return_history=history, **par)
    h.check(e.fit(X, y) is e, "fit returns the estimator")
    inner.used()
    h.equal(X, X0, "data unchanged")
    h.equal(y, y0, "labels unchanged")
    h.equal(e.classes_, np.array(vals), "classes are the sorted distinct labels")
    D = np.array([[X0[i] for i in range(n) if y0[i] == v] for v in vals])
    out = getattr(m, "_fit_time_%s_model" % kind)(D, return_history=True, return_n_iter=True, **s)
    h.equal(e.precision_, out[0], "matrices as computed from the labelled samples and the given parameters")
    h.equal(e.get_precision(), out[0], "get_precision")
    h.equal(e.n_iter_, out[-1], "number of iterations")
    if history:
        h.check(len(e.history_) == len(out[1]), "history")


def rejects(h):
    i, p = h.mod(G + "glm_time_ising"), h.mod(G + "glm_time_poisson")
    y = np.array([0, 0, 1, 1])
    three = np.array([[0., 1], [2, 1], [0, 0], [1, 1]])
    neg = np.array([[0., 1], [2, 1], [0, -3], [1, 1]])
    h.raises(ValueError, lambda: i.TemporalIsingModel(max_iter=1).fit(three, y), "Ising data have two values")
    h.raises(ValueError, lambda: p.TemporalPoissonModel(max_iter=1).fit(neg, y), "Poisson data are counts")
    two = np.array([[0., 1], [1, 1], [0, 0], [1, 1]])
    for c in (i.TemporalIsingModel, p.TemporalPoissonModel):
        h.raises(ValueError, lambda: c(kernel=np.eye(3), max_iter=1).fit(two, y), "kernel size mismatch")


def tasks(T, tier):
    th = tier == "thorough"
    for kind in ("ising", "poisson"):
        for t in (1, 2, 3):
            yield T("solver", dict(kind=kind, T=t, n=2 if t == 2 else 1))
        yield T("solver", dict(kind=kind, T=2, kernel="none"))
        for p in ("l1", "l2"):
            yield T("solver", dict(kind=kind, T=2, psi=p))
        yield T("solver", dict(kind=kind, T=3, psi="l1", endless=True))
        yield T("solver", dict(kind=kind, T=2, N=2, endless=True, upd=True), budget=300)
        yield T("solver", dict(kind=kind, T=2, N=2), budget=300)
        yield T("solver", dict(kind=kind, T=3, N=2, endless=True, obj=False), budget=300)
        yield T("solver", dict(kind=kind, T=2, N=2, endless=True, psi="l1", obj=False), budget=300)
        yield T("solver", dict(kind=kind, T=3, N=2, endless=True, upd=True, obj=False), budget=300)
        if th:
            yield T("solver", dict(kind=kind, T=4, endless=True), budget=900)
            yield T("solver", dict(kind=kind, T=2, N=3, endless=True, obj=False), budget=900)
        for k in ("array", "none", "scale", "const"):
            yield T("estimator", dict(kind=kind, y=(2, 0, 0, 2) if k != "array" else (1, 5, 3, 5, 1, 3), kernel=k), samples=3)
        yield T("estimator", dict(kind=kind, y=(1, 0), psi="l1", N=2, history=True), samples=3, budget=300)
    yield T("solver", dict(kind="ising", T=2, n=2, N=1, real=True))
    yield T("solver", dict(kind="ising", T=2, n=1, N=2, real=True, endless=True, obj=False), budget=300)
    yield T("rejects", dict(), samples=2)
