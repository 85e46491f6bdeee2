"""Independent reference statements of the optimisation algorithms (plain numpy).

Every function below is written from the documented optimisation problem: the scaled
alternating-direction updates of that problem, its residuals, tolerances and stopping
rule.  The harnesses run the real solver and these side by side on the same symbolic inputs.
"""
import numpy as np


def T_(x):
    return np.swapaxes(x, -1, -2)


def sq(x):
    return (x * x).sum()


def fro(*xs):
    t = 0
    for x in xs:
        t = t + sq(x)
    return np.sqrt(t)


def symm(x):
    return (x + T_(x)) / 2


def spectral(a, f):
    """Q diag(f(e)) Q'."""
    es, Q = np.linalg.eigh(a)
    d = a.shape[0]
    out = np.zeros((d, d))
    fe = [f(es[k]) for k in range(d)]
    for i in range(d):
        for j in range(d):
            t = 0
            for k in range(d):
                t = t + Q[i, k] * fe[k] * Q[j, k]
            out[i, j] = t
    return out


def prox_logdet(S, B, c):
    """argmin_K tr(SK) - logdet K + (c/2)||K - B||^2: eigenvalues k of K solve c k - 1/k = -e, e = eig(S - cB)."""
    return spectral(S - c * B, lambda e: (-e + np.sqrt(e * e + 4 * c)) / (2 * c))


def prox_psd(B, lam):
    """argmin_{L psd} lam tr(L) + ||L - B||^2/2."""
    return spectral(B, lambda e: np.maximum(e - lam, 0))


def soft(a, lam):
    """Proximal map of lam*|x| (form decided equivalent to the optimality conditions in C01)."""
    return np.sign(a) * np.maximum(np.abs(a) - lam, 0)


def soft_od(a, lam):
    out = soft(a, lam)
    for i in range(a.shape[-1]):
        out[..., i, i] = a[..., i, i]
    return out


def group(a, lam):
    """Proximal map of lam * sum of column norms (form decided equivalent in C02)."""
    out = np.zeros(a.shape)
    for j in range(a.shape[1]):
        nrm = np.sqrt(sq(a[:, j]))
        nrm = np.where(nrm == 0, 1, nrm)
        for i in range(a.shape[0]):
            out[i, j] = np.maximum(1 - lam / nrm, 0) * a[i, j]
    return out


def l1_od(x):
    t = 0
    for i in range(x.shape[0]):
        for j in range(x.shape[1]):
            if i != j:
                t = t + np.abs(x[i, j])
    return t


def logdet(x):
    """log det for positive determinants, else -inf."""
    sign, ld = np.linalg.slogdet(x)
    return np.where(sign > 0, ld, -np.inf)


def nll(S, K):
    return (S * K).sum() - logdet(K)


def nuc(L):
    return np.linalg.norm(L, ord="nuc")


def penalty(name, x):
    if name == "laplacian":
        return sq(x)
    if name == "l1":
        return np.abs(x).sum()
    if name == "l2":
        t = 0
        for j in range(x.shape[1]):
            t = t + np.sqrt(sq(x[:, j]))
        return t
    raise ValueError(name)


def prox_pair(name, a, b, w):
    """argmin_{x,y} w*penalty(y - x) + ||x-a||^2/2 + ||y-b||^2/2."""
    e = b - a
    if name == "laplacian":
        p = e / (1 + 4 * w)
    elif name == "l1":
        p = soft(e, 2 * w)
    elif name == "l2":
        p = group(e, 2 * w)
    else:
        raise ValueError(name)
    return (a + b - p) / 2, (a + b + p) / 2


def init(h, S, mode, given=None):
    """'empirical': pseudo inverse of the covariance with off-diagonal entries shrunk by 0.95."""
    from scipy import linalg
    if mode == "array":
        return given.copy()
    if mode == "zeros":
        return np.zeros(S.shape)
    mats = S if S.ndim == 3 else S[None]
    out = np.zeros(mats.shape)
    for t in range(mats.shape[0]):
        c = 0.95 * mats[t]
        for i in range(c.shape[0]):
            c[i, i] = mats[t][i, i]
        out[t] = linalg.pinvh(c)
    return out if S.ndim == 3 else out[0]


class Rec(object):
    def __init__(self, obj, rnorm, snorm, e_pri, e_dual):
        self.obj, self.rnorm, self.snorm, self.e_pri, self.e_dual = obj, rnorm, snorm, e_pri, e_dual


class Out(object):
    converged = False
    hist = ()
    n_iter = 0


def adapt(rho, r, s, mu=10, tau_inc=2, tau_dec=2):
    """Residual balancing (Boyd et al. 2011, 3.4.1)."""
    if r > mu * s:
        return rho * tau_inc
    if s > mu * r:
        return rho / tau_dec
    return rho


def admm(state, step, tol, rtol, rho, N, upd=None, size=None):
    """Generic loop.  step(state, rho) -> (primal pairs [(x, z)], z blocks, duals u, obj) updates the state and
    returns what the residuals are made of."""
    upd = upd or {}
    out = Out()
    out.hist = []
    old = None
    for it in range(N):
        pairs, zs, us, obj = step(state, rho)
        if old is None:
            old = [np.zeros(z.shape) for z in zs]
        r = fro(*[x - z for x, z in pairs])
        s = rho * fro(*[z - o for z, o in zip(zs, old)])
        n = 0
        for x, _ in pairs:
            n += x.size
        n = size if size is not None else n
        e_pri = np.sqrt(n) * tol + rtol * np.maximum(fro(*[x for x, _ in pairs]), fro(*[z for _, z in pairs]))
        e_dual = np.sqrt(n) * tol + rtol * rho * fro(*us(state))
        out.hist.append(Rec(obj, r, s, e_pri, e_dual))
        out.n_iter = it + 1
        old = [z.copy() for z in zs]
        if r <= e_pri and s <= e_dual:
            out.converged = True
            break
        new = adapt(rho, r, s, **upd)
        state.rescale(rho / new)
        rho = new
    out.state = state
    out.rho = rho
    return out


class State(object):
    duals = ()

    def rescale(self, f):
        for k in self.duals:
            setattr(self, k, getattr(self, k) * f)

    def us(self):
        return [getattr(self, k) for k in self.duals]


def graphical_lasso(h, S, alpha, rho, relax, N, tol, rtol, Z0, upd=None, objective=None):
    st = State()
    st.duals = ("U",)
    st.Z = Z0
    st.U = np.zeros(S.shape)

    def step(st, rho):
        K = prox_logdet(S, symm(st.Z - st.U), rho)
        Kh = relax * K + (1 - relax) * st.Z
        Z = soft_od(Kh + st.U, alpha / rho)
        st.U = st.U + Kh - Z
        st.Z = Z
        obj = objective(K, Z) if objective else None
        return [(K, Z)], [Z], State.us, obj
    return admm(st, step, tol, rtol, rho, N, upd)


def latent(h, S, alpha, tau, rho, N, tol, rtol, K0, upd=None, objective=False, likelihood=True):
    """min f(R) + alpha|K|_od + tau tr(L) s.t. R = K - L, L psd."""
    st = State()
    st.duals = ("U",)
    st.K, st.L, st.U = K0, np.zeros(S.shape), np.zeros(S.shape)

    def step(st, rho):
        B = symm(st.K - st.L - st.U)
        R = prox_logdet(S, B, rho) if likelihood else (S + rho * B) / (1 + rho)
        st.K = soft_od(R + st.L + st.U, alpha / rho)
        st.L = prox_psd(symm(st.K - R - st.U), tau / rho)
        st.U = st.U + R - st.K + st.L
        obj = None
        if objective:
            obj = (nll(S, R) if likelihood else sq(S - R) / 2) + alpha * l1_od(st.K) + tau * nuc(st.L)
        return [(R, st.K - st.L)], [R], State.us, obj
    return admm(st, step, tol, rtol, rho, N, upd)


def per(x, n):
    """Scalar or array parameter -> list of n scalars."""
    if isinstance(x, np.ndarray):
        return [x.reshape(-1)[t] for t in range(n)]
    return [x] * n


def temporal(h, S, n, alpha, pairs, psi, rho, N, tol, rtol, Z0, upd=None, objective=False):
    """min sum_t n_t nll(S_t, K_t) + alpha_t |K_t|_od + sum_{(s,t,w)} w penalty(K_t - K_s), by consensus:
    one copy of K_t for the l1 term and one for each pair it appears in."""
    T = S.shape[0]
    al = per(alpha, T)
    st = State()
    st.Z = [Z0[t] for t in range(T)]
    st.U = [np.zeros(S[0].shape) for t in range(T)]
    st.P = [[Z0[s], Z0[t]] for s, t, w in pairs]
    st.V = [[np.zeros(S[0].shape), np.zeros(S[0].shape)] for _ in pairs]

    def rescale(f):
        st.U = [u * f for u in st.U]
        st.V = [[u * f, v * f] for u, v in st.V]
    st.rescale = rescale

    def us(st):
        return st.U + [u for v in st.V for u in v]

    def step(st, rho):
        K = []
        for t in range(T):
            acc, cnt = st.Z[t] - st.U[t], 1
            for i, (a, b, w) in enumerate(pairs):
                for side, x in ((0, a), (1, b)):
                    if x == t:
                        acc = acc + st.P[i][side] - st.V[i][side]
                        cnt += 1
            K.append(prox_logdet(S[t], symm(acc / cnt), rho * cnt / n[t]))
        st.K = K
        st.Z = [soft_od(symm(K[t] + st.U[t]), al[t] / rho) for t in range(T)]
        st.U = [st.U[t] + K[t] - st.Z[t] for t in range(T)]
        res = [(K[t], st.Z[t]) for t in range(T)]
        for i, (a, b, w) in enumerate(pairs):
            x, y = prox_pair(psi, K[a] + st.V[i][0], K[b] + st.V[i][1], w / rho)
            st.P[i] = [x, y]
            st.V[i] = [st.V[i][0] + K[a] - x, st.V[i][1] + K[b] - y]
            res += [(K[a], x), (K[b], y)]
        obj = temporal_objective(S, n, K, st.Z, st.P, al, pairs, psi) if objective else None
        return res, [z for _, z in res], us, obj
    st.obj0 = temporal_objective(S, n, st.Z, st.Z, st.P, al, pairs, psi) if objective else None
    return admm(st, step, tol, rtol, rho, N, upd)


def temporal_objective(S, n, K, Z, P, al, pairs, psi):
    t = 0
    for i in range(len(K)):
        t = t + n[i] * nll(S[i], K[i]) + al[i] * l1_od(Z[i])
    for i, (a, b, w) in enumerate(pairs):
        t = t + w * penalty(psi, P[i][1] - P[i][0])
    return t


def latent_temporal(h, S, n, alpha, tau, zpairs, wpairs, psi, phi, rho, N, tol, rtol, Z0, upd=None, objective=False,
                    likelihood=True, pairs_last=False):
    """min sum_t f(R_t) + alpha|Z_t|_od + tau tr(W_t) + pairwise penalties on Z (psi) and on W (phi),
    R_t = Z_t - W_t, W_t psd; consensus copies for the pairs."""
    T = S.shape[0]
    zero = np.zeros(S[0].shape)
    st = State()
    st.Z = [Z0[t] for t in range(T)]
    st.W = [zero for t in range(T)]
    st.X = [zero for t in range(T)]
    st.PZ = [[Z0[s], Z0[t]] for s, t, w in zpairs]
    st.PW = [[zero, zero] for _ in wpairs]
    st.VZ = [[zero, zero] for _ in zpairs]
    st.VW = [[zero, zero] for _ in wpairs]

    def rescale(f):
        st.X = [u * f for u in st.X]
        st.VZ = [[u * f, v * f] for u, v in st.VZ]
        st.VW = [[u * f, v * f] for u, v in st.VW]
    st.rescale = rescale

    def us(st):
        return st.X + [u for v in st.VZ for u in v] + [u for v in st.VW for u in v]

    def average(t, acc, pairs, P, V):
        cnt = 1
        for i, (a, b, w) in enumerate(pairs):
            for side, x in ((0, a), (1, b)):
                if x == t:
                    acc = acc + P[i][side] - V[i][side]
                    cnt += 1
        return acc / cnt, cnt

    def split(base, pairs, V, name, rho):
        return [list(prox_pair(name, base[a] + V[i][0], base[b] + V[i][1], w / rho))
                for i, (a, b, w) in enumerate(pairs)]

    def step(st, rho):
        R = []
        for t in range(T):
            B = st.Z[t] - st.W[t] - st.X[t]
            R.append(prox_logdet(S[t], symm(B), rho / n[t]) if likelihood else (rho * B + 2 * S[t]) / (2 + rho))
        Z = []
        for t in range(T):
            m, cnt = average(t, R[t] + st.W[t] + st.X[t], zpairs, st.PZ, st.VZ)
            Z.append(soft_od(m, alpha / (rho * cnt)))
        st.Z = Z
        W = []
        for t in range(T):
            m, cnt = average(t, Z[t] - R[t] - st.X[t], wpairs, st.PW, st.VW)
            W.append(prox_psd(symm(m), tau / (rho * cnt)))
        st.W = W
        st.PZ = split(Z, zpairs, st.VZ, psi, rho)
        st.PW = split(W, wpairs, st.VW, phi, rho)
        st.X = [st.X[t] + R[t] - Z[t] + W[t] for t in range(T)]
        st.VZ = [[st.VZ[i][0] + Z[a] - st.PZ[i][0], st.VZ[i][1] + Z[b] - st.PZ[i][1]]
                 for i, (a, b, w) in enumerate(zpairs)]
        st.VW = [[st.VW[i][0] + W[a] - st.PW[i][0], st.VW[i][1] + W[b] - st.PW[i][1]]
                 for i, (a, b, w) in enumerate(wpairs)]
        res = [(R[t], Z[t] - W[t]) for t in range(T)]
        zs = list(R)
        for i, (a, b, w) in enumerate(zpairs):
            res += [(st.PZ[i][0], Z[a]), (st.PZ[i][1], Z[b])]
            zs += st.PZ[i]
        for i, (a, b, w) in enumerate(wpairs):
            res += [(st.PW[i][0], W[a]), (st.PW[i][1], W[b])]
            zs += st.PW[i]
        obj = None
        if objective:
            obj = 0
            for t in range(T):
                obj = obj + (n[t] * nll(S[t], R[t]) if likelihood else sq(S[t] - R[t]))
                obj = obj + alpha * l1_od(Z[t]) + tau * nuc(W[t])
            for i, (a, b, w) in enumerate(zpairs):
                obj = obj + w * penalty(psi, st.PZ[i][1] - st.PZ[i][0])
            for i, (a, b, w) in enumerate(wpairs):
                obj = obj + w * penalty(phi, st.PW[i][1] - st.PW[i][0])
        return res, zs, us, obj
    return admm(st, step, tol, rtol, rho, N, upd)


def chain(T, w):
    ws = per(w, T - 1)
    return [(t, t + 1, ws[t]) for t in range(T - 1)]


def all_pairs(kernel):
    T = kernel.shape[0]
    return [(t, t + m, kernel[t, t + m]) for m in range(1, T) for t in range(T - m)]


def stack(ms):
    out = np.zeros((len(ms),) + ms[0].shape)
    for i, m in enumerate(ms):
        out[i] = m
    return out


def compare_history(h, hist, ref, obj=False):
    h.check(len(hist) == len(ref), "one record per iteration")
    for k, (a, b) in enumerate(zip(hist, ref)):
        h.equal(a.rnorm, b.rnorm, "primal residual %d" % k)
        h.equal(a.snorm, b.snorm, "dual residual %d" % k)
        h.equal(a.e_pri, b.e_pri, "primal tolerance %d" % k)
        h.equal(a.e_dual, b.e_dual, "dual tolerance %d" % k)
        if obj:
            h.equal(a.obj, b.obj, "objective %d" % k)
