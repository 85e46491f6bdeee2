"""C27: Ising, Poisson and multi-class generators and samplers."""
import itertools
import sys

import numpy as np
from draws import Draws

BOUNDS = ("graphs over 1..3 variables (every 0/1 graph, or arbitrary real symmetric interactions), arbitrary thresholds and uniform draws, "
          "1..2 sweeps, 1..2 samples, response alphabets (-1,1) and (0,1), inverse temperature 1 and 2; coupling from the past for 2 "
          "variables and up to 2 rounds; temporal updates of graphs over 3 variables")
ASSUMPTIONS = ["numpy.random returns arbitrary values of its documented range (each outcome explored), Poisson counts are arbitrary "
               "non-negative numbers whose parameter is recorded", "networkx graphs are arbitrary 0/1 graphs",
               "a rejected pair of indices is redrawn at most once"]
I, P = "regain.datasets.ising", "regain.datasets.poisson"
FREE = -sys.maxsize - 1


def interactions(h, d, thr=True):
    """theta = log w: exponentials of energies are monomials in w."""
    th, w = h.empty((d, d)), h.empty((d, d))
    for i in range(d):
        for j in range(i):
            w[i, j] = w[j, i] = h.pos("w_%d_%d" % (i, j))
            th[i, j] = th[j, i] = np.log(w[i, j])
    b, v = h.empty((d,)), h.empty((d,))
    for i in range(d):
        v[i] = h.pos("v_%d" % i) if thr else h.lit(1)
        b[i] = np.log(v[i]) if thr else h.lit(0)
    return th, w, b, v


def conditional(h, i, w, v, s, beta, resp):
    """P(s_i = resp[1] | rest) of the model exp(beta (sum b_i s_i + sum_{i<j} theta_ij s_i s_j))."""
    q = h.lit(1)
    for sign, r in ((1, resp[1]), (-1, resp[0])):
        q = q * v[i] ** (sign * beta * r)
        for j in range(len(s)):
            if j != i:
                q = q * w[i, j] ** (sign * beta * r * s[j])
    return q / (1 + q)


def gibbs(h, d, sweeps, resp, beta, cons):
    m = h.mod(I)
    th, w, b, v = interactions(h, d)
    D = Draws(h)
    seq = []

    def uniform(*a, **k):
        x = D.uniform(*a, **k)
        seq.append(x)
        return x
    h.override("numpy.random.uniform", uniform)
    c = np.array([resp[0] if i in cons else FREE for i in range(d)], dtype=float)
    th0, b0 = th.copy(), b.copy()
    got = m.ising_metropolis_hastings(th, b, beta, sweeps, list(resp), c)
    free = [i for i in range(d) if i not in cons]
    if len(seq) != d + sweeps * len(free):
        raise ImportError("regain: uniform draws are used differently")
    h.equal(th, th0, "graph unchanged")
    h.equal(b, b0, "thresholds unchanged")
    s = [resp[1] if seq[i] < 0.5 else resp[0] for i in range(d)]
    for i in cons:
        s[i] = resp[0]
    k = d
    for _ in range(sweeps):
        for i in free:
            s[i] = resp[1] if seq[k] < conditional(h, i, w, v, s, beta, resp) else resp[0]
            k += 1
    h.equal(np.array(got), np.array(s), "single-site updates with the conditional probabilities of the model")


def sampler(h, n, d, sweeps, resp):
    """ising_sampler, MH: one independent chain per sample."""
    m = h.mod(I)
    th, w, b, v = interactions(h, d)
    D = Draws(h)
    seq = []

    def uniform(*a, **k):
        x = D.uniform(*a, **k)
        seq.append(x)
        return x
    h.override("numpy.random.uniform", uniform)
    got = m.ising_sampler(th, b, n=n, max_iter=sweeps, responses=list(resp))
    if len(seq) != n * (d + sweeps * d):
        raise ImportError("regain: uniform draws are used differently")
    got = np.array(got)
    h.check(got.shape == (n, d), "one row per sample")
    k = 0
    for r in range(n):
        s = []
        for i in range(d):
            s.append(resp[1] if seq[k] < 0.5 else resp[0])
            k += 1
        for _ in range(sweeps):
            for i in range(d):
                s[i] = resp[1] if seq[k] < conditional(h, i, w, v, s, 1, resp) else resp[0]
                k += 1
        h.equal(got[r], np.array(s), "independent chain")


def probability(h, d, resp, beta):
    m = h.mod(I)
    th, w, b, v = interactions(h, d)
    for s in itertools.product(resp, repeat=d):
        for i in range(d):
            h.equal(m.p_plus(i, th, list(s), b, beta, list(resp)), conditional(h, i, w, v, s, beta, resp), "conditional probability")


def bounds(h, d, resp):
    """Bounds of the conditional probability with unknown neighbours: attained, and valid for every completion."""
    m = h.mod(I)
    th, w, b, v = interactions(h, d)
    for i in range(d):
        for j in range(i):
            if w[i, j] > 1:
                h.assume(th[i, j] > 0)
            elif w[i, j] == 1:
                h.assume(th[i, j] == 0)
            else:
                h.assume(th[i, j] < 0)
    for state in itertools.product((FREE,) + tuple(resp), repeat=d - 1):
        s = [resp[0]] + [float(x) for x in state]
        lo, hi = m.p_plus_minmax(0, th, s, b, 1, list(resp))
        vals = []
        for fill in itertools.product(*[[x] if x != FREE else list(resp) for x in state]):
            vals.append(conditional(h, 0, w, v, (resp[0],) + fill, 1, resp))
        for p in vals:
            h.leq(lo, p, "lower bound")
            h.leq(p, hi, "upper bound")
        mn, mx = vals[0], vals[0]
        for p in vals[1:]:
            mn = p if p < mn else mn
            mx = p if p > mx else mx
        h.equal(lo, mn, "lower bound attained")
        h.equal(hi, mx, "upper bound attained")


def coupling(h, resp, rounds):
    """Coupling from the past: the sample does not depend on the state in the distant past."""
    m = h.mod(I)
    d = 2
    th, w, b, v = interactions(h, d, thr=False)
    if w[0, 1] > 1:
        h.assume(th[0, 1] > 0)
    elif w[0, 1] == 1:
        h.assume(th[0, 1] == 0)
    else:
        h.assume(th[0, 1] < 0)
    D = Draws(h)
    seq = []

    def uniform(low=0.0, high=1.0, size=None):
        x = D.uniform(low, high, size)
        if size is not None:
            h.assume(len(seq) < rounds)
            seq.append(x)
        return x
    h.override("numpy.random.uniform", uniform)
    got = m.ising_exact(th, b, max_iter=1, responses=list(resp), exact=True)
    if not seq:
        raise ImportError("regain: uniform draws are used differently")
    for start in itertools.product(resp, repeat=d):
        s = list(start)
        for U in seq[::-1]:
            for i in range(d):
                s[i] = resp[1] if U[0, i] < conditional(h, i, w, v, s, 1, resp) else resp[0]
        h.equal(np.array(got), np.array(s), "every starting state leads to the returned sample")


def energy(h, d, resp):
    m = h.mod(I)
    th = h.symmetric("t", d)
    b = h.array("b", (d,))
    for s in itertools.product(resp, repeat=d):
        e = h.lit(0)
        for i in range(d):
            e = e - b[i] * s[i]
            for j in range(i):
                e = e - th[i, j] * s[i] * s[j]
        h.equal(m.hamiltonian(th, list(s), b), e, "energy counts every variable and every pair once")


def direct(h, d, n, resp, beta):
    m = h.mod(I)
    th, w, b, v = interactions(h, d)
    seen = []

    def choice(a, size=None, replace=True, p=None):
        seen.append((len(a), size, replace, p))
        return [(3 * k + 1) % len(a) for k in range(size)]
    h.override("numpy.random.choice", choice)
    got = m.ising_sampler(th, b, n=n, beta=beta, responses=list(resp), method="direct")
    if len(seen) != 1:
        raise ImportError("regain: states are drawn differently")
    N, size, rep, p = seen[0]
    h.check(N == 2 ** d and size == n and bool(rep), "independent draws among all states")
    states = list(itertools.product(resp, repeat=d))
    ws = []
    for s in states:
        q = h.lit(1)
        for i in range(d):
            q = q * v[i] ** (beta * s[i])
            for j in range(i):
                q = q * w[i, j] ** (beta * s[i] * s[j])
        ws.append(q)
    p = np.array(p)
    for k in range(len(states)):
        h.equal(p[k] * sum(ws), ws[k], "probability of a state")
    h.check([tuple(int(x) for x in s) for s in got] == [tuple(states[(3 * k + 1) % len(states)]) for k in range(n)], "drawn states")


def rejected(h):
    m = h.mod(I)
    a = h.array("a", (2, 2))
    h.assume(a[0, 1] != a[1, 0])
    h.raises((AssertionError, ValueError), lambda: m.ising_sampler(a, np.zeros(2), n=1, max_iter=1), "asymmetric graph")
    h.raises(ValueError, lambda: m.ising_sampler(np.zeros((2, 2)), np.zeros(2), n=1, responses=[0, 1, 2]), "three responses")
    h.raises(ValueError, lambda: m.ising_sampler(np.zeros((2, 2)), np.zeros(2), n=1, method="other"), "unknown method")


def once(h, D, d):
    """Rejected index pairs are redrawn at most once."""
    st = dict(rows=None, rounds=0)

    def randint(low, high=None, size=None, **kw):
        x = D.randint(low, high, size)
        if st["rows"] is None:
            st["rows"] = x
        else:
            if st["rounds"]:
                h.assume(all(int(a) != int(b) for a, b in zip(np.ravel(x), np.ravel(st["rows"]))))
            st["rows"] = None
            st["rounds"] += 1
        return x
    h.override("numpy.random.randint", randint)


def evolve(h, kind, d, change):
    """Temporal update of an arbitrary graph without self loops."""
    D = Draws(h)
    once(h, D, d)
    g = h.symmetric("g", d)
    for i in range(d):
        g[i, i] = h.lit(0)
    g0 = g.copy()
    if kind == "ising":
        r = h.mod(I).update_ising_l1(g, change, d)
    else:
        r = h.mod(P).update_l1(g, change, d)
    h.equal(g, g0, "previous graph unchanged")
    h.equal(r, r.T, "symmetric")
    n = 0
    for i in range(d):
        h.equal(r[i, i], 0, "no self loop")
        for j in range(i):
            if r[i, j] == g0[i, j]:
                continue
            n += 1
            if kind == "ising":
                h.check((g0[i, j] == 0) != (r[i, j] == 0), "edges appear or disappear")
                if r[i, j] != 0:
                    h.check(np.any(np.array([r[i, j] == -1, r[i, j] == 1])), "new interactions are -1 or 1")
            else:
                h.equal(r[i, j], 0, "edges only disappear")
    h.check(n <= change, "no more changes than requested")


class Graph(object):
    def __init__(self, a):
        self.a = a


class Dense(object):
    def __init__(self, a):
        self.a = a

    def todense(self):
        return self.a

    toarray = todense


def networks(h, g):
    """networkx generators return the graph g."""
    import types
    ns = types.SimpleNamespace()
    for f in ("fast_gnp_random_graph", "barabasi_albert_graph", "watts_strogatz_graph", "gnm_random_graph", "erdos_renyi_graph"):
        make = (lambda *a, **k: Graph(g))
        setattr(ns, f, make)
        h.override("networkx." + f, make)
    h.override("networkx.random_graphs", ns)
    h.override("networkx.adjacency_matrix", lambda G, *a, **k: Dense(G.a.copy()))


def generator(h, kind, T, rg, mode):
    """The list of graphs: every graph is the update of its predecessor."""
    d = 2
    D = Draws(h)
    once(h, D, d)
    g = h.empty((d, d))
    g[0, 1] = g[1, 0] = h.lit(1) if h.flag("e") else h.lit(0)
    networks(h, g)
    if kind == "ising":
        ths = h.mod(I).ising_theta_generator(n_dim_obs=d, T=T, mode=mode, random_graph=rg, change=1)
    else:
        ths = h.mod(P).poisson_theta_generator(n_dim_obs=d, T=T, mode=mode, random_graph=rg, n_to_change=1)
    h.check(len(ths) == T, "one graph per time")
    for t in range(T):
        h.equal(ths[t], ths[t].T, "symmetric")
        for i in range(d):
            h.equal(ths[t][i, i], 0, "no self loop")
        if t and kind == "poisson":
            h.check(np.any(np.array([ths[t][0, 1] == ths[t - 1][0, 1], ths[t][0, 1] == 0])), "edges only disappear")
    if rg != "other" or kind == "poisson":
        h.equal(ths[0], g, "starts from the random graph")


def notyet(h, kind, mode):
    d = 2
    g = np.zeros((d, d))
    networks(h, g)
    f = h.mod(I).ising_theta_generator if kind == "ising" else h.mod(P).poisson_theta_generator
    h.raises(ValueError, lambda: f(n_dim_obs=d, T=2, mode=mode), "unimplemented update")


def edges_of(d, bits):
    pairs = [(i, j) for i in range(d) for j in range(i + 1, d)]
    return [p for k, p in enumerate(pairs) if bits >> k & 1]


def poisson(h, d, bits, n, real_lambda):
    """LPGM samples: own component + one shared component per edge + noise."""
    D = Draws(h)
    E = edges_of(d, bits)
    g = np.zeros((d, d))
    for i, j in E:
        g[i, j] = g[j, i] = 1
    lam, noise = h.pos("lam"), h.pos("noise")
    X = np.array(h.mod(P).poisson_sampler(g, n_samples=n, _lambda=lam, _lambda_noise=noise))
    h.check(X.shape == (n, d), "one row per sample")
    own = [c for c in D.counts if np.ndim(c[1]) == 1]
    rest = [c for c in D.counts if np.ndim(c[1]) == 2]
    if len(own) != d + len(E) or len(rest) != 1:
        raise ImportError("regain: counts are drawn differently")
    for l, x in own:
        h.equal(l, lam, "rate of the components")
    h.equal(rest[0][0], noise, "rate of the noise")
    for s in range(n):
        cases = []
        for perm in itertools.permutations(range(len(E))):
            c = []
            for i in range(d):
                v = own[i][1][s] + rest[0][1][s, i]
                for k, e in enumerate(E):
                    if i in e:
                        v = v + own[d + perm[k]][1][s]
                c.append(abs(X[s, i] - v) <= 1e-9)
            cases.append(np.all(np.array(c)))
        h.check(np.any(np.array(cases)), "variables share a component exactly when they are linked")


def poissongibbs(h, d, n, sweeps, given):
    """Gibbs sampling: the rate of each variable is exp(variance + sum of its neighbours)."""
    D = Draws(h)
    g = h.symmetric("g", d)
    for i in range(d):
        g[i, i] = h.lit(0)
    var = h.array("b", (d,)) if given else None
    X = h.mod(P).poisson_sampler(g, variances=var, n_samples=n, _type="other", max_iter=sweeps)
    got = np.array(X)
    if len(D.counts) != 1 + sweeps * d * n or np.shape(D.counts[0][1]) != (n, d):
        raise ImportError("regain: counts are drawn differently")
    cur = [[D.first[s][i] for i in range(d)] for s in range(n)] if hasattr(D, "first") else None
    k = 1
    for _ in range(sweeps):
        for i in range(d):
            rates = []
            for s in range(n):
                e = var[i] if given else h.lit(0)
                for j in range(d):
                    if j != i:
                        e = e + cur[s][j] * g[j, i]
                rates.append(np.exp(e))
            for s in range(n):
                l, x = D.counts[k]
                h.equal(l, rates[s], "conditional rate")
                cur[s][i] = x
                k += 1
    for s in range(n):
        for i in range(d):
            h.equal(got[s, i], cur[s][i], "last draws")


def dataset(h, dist, n, d, T, axis):
    """make_dataset: graphs and samples of their own time."""
    seen = []
    ths = [h.symmetric("g%d" % t, d) for t in range(T)]
    b = h.mod("regain.datasets.base")

    def gen(**k):
        seen.append((k["n_dim_obs"], k["T"], k["mode"]))
        return ths

    def samp(*a, **k):
        t = len([s for s in seen if s[0] == "s"])
        th = a[0] if a else k["theta"]
        num = k["n"] if dist == "ising" else k["n_samples"]
        resp = k.get("responses")
        seen.append(("s", th, num, resp))
        return h.array("x%d" % t, (num, d))
    h.override("regain.datasets.base.%s_theta_generator" % dist, gen)
    h.override("regain.datasets.base.%s_sampler" % dist, samp)
    r = b.make_dataset(n_samples=n, n_dim_obs=d, T=T, distribution=dist, update_theta="l1", time_on_axis=axis)
    S = [s for s in seen if s[0] == "s"]
    if len(S) != T or len(seen) != T + 1:
        raise ImportError("regain: data are generated differently")
    h.check(seen[0] == (d, T, "l1"), "options of the generator")
    X = np.array(r.X)
    h.check(X.shape == (n * T, d), "samples of all times stacked")
    h.check([int(v) for v in r.y] == [t for t in range(T) for _ in range(n)], "one label per sample")
    h.check(np.array(r.data).shape == ((n, d, T) if axis == "last" else (T, n, d)), "shape of the data")
    for t in range(T):
        h.equal(np.array(r.thetas[t]), ths[t], "graphs as generated")
        h.equal(S[t][1], ths[t], "sampled from the graph of its own time")
        if dist == "ising":
            h.check(list(S[t][3]) == [-1, 1], "responses -1 and 1")
        x = h.array("x%d" % t, (n, d))
        for s in range(n):
            h.equal(X[t * n + s], x[s], "sample of its own time")
            h.equal(r.data[s, :, t] if axis == "last" else r.data[t, s], x[s], "data of its own time")


def classes(h, dist, d, C, bits):
    """Multi-class networks."""
    D = Draws(h)
    g = np.zeros((d, d))
    for i, j in edges_of(d, bits):
        g[i, j] = g[j, i] = 1
    M = "regain.datasets.multi_class"
    networks(h, g)
    picks = []

    def choice(a, size=None, replace=True, p=None):
        x = D.choice(a, size, replace, p)
        if size is not None:
            picks.append(x)
        return x
    h.override("numpy.random.choice", choice)
    h.override("numpy.random.rand", lambda *s: D.randn(*s))
    r = h.mod(M).generate_multiple_class_dataset(n_dim_obs=d, n_classes=C, distribution=dist)
    B = r["binary"]
    h.check(len(B) == C, "one network per class")
    up = [(i, j) for i in range(d) for j in range(i + 1, d)]
    for c in range(C):
        h.equal(B[c], B[c].T, "binary network: symmetric")
        diff = 0
        for i in range(d):
            h.equal(B[c][i, i], 0, "no self loop")
        for i, j in up:
            h.check(np.any(np.array([B[c][i, j] == 0, B[c][i, j] == 1])), "binary")
            if B[c][i, j] != g[i, j]:
                diff += 1
        h.check(diff <= len(up) // 10 + 1, "about a tenth of the edges change")
    for k in ([dist] if isinstance(dist, str) else dist):
        K = r[k]
        h.check(len(K) == C, "one network per class")
        for c in range(C):
            h.equal(K[c], K[c].T, "symmetric")
            for i, j in up:
                if B[c][i, j] == 0:
                    h.equal(K[c][i, j], 0, "absent edges are absent")
                elif k == "poisson":
                    h.equal(K[c][i, j], 1, "edges of the binary network")
                if k != "poisson" and B[c][i, j] != 0 and B[0][i, j] != 0:
                    h.equal(K[c][i, j], K[0][i, j], "common edges share their weight")
            if k != "poisson":
                for i in range(d):
                    h.equal(K[c][i, i], 1, "unit diagonal")


def classdata(h, dist, n, d, C):
    D = Draws(h)
    M = "regain.datasets.multi_class"
    nets = []
    for c in range(C):
        nets.append(h.spd("o%d" % c, d) if dist == "gaussian" else h.symmetric("g%d" % c, d))
    keep = [m.copy() for m in nets]
    seen = []

    def samp(th, *a, **k):
        seen.append((th.copy(), None))
        return h.array("x%d" % (len(seen) - 1), (n, d))
    if dist != "gaussian":
        h.override(M + ".%s_sampler" % dist, samp)
    r = h.mod(M).sample(n_dim_obs=d, n_classes=C, n_samples=n, networks={dist: nets, "binary": None})
    h.check(list(r.keys()) == [dist], "one data set per distribution")
    r = r[dist]
    if len(D.normals if dist == "gaussian" else seen) != C:
        raise ImportError("regain: data are generated differently")
    X = np.array(r.X)
    h.check(X.shape == (n * C, d), "samples of all classes stacked")
    h.check([int(v) for v in r.y] == [c for c in range(C) for _ in range(n)], "one label per sample")
    for c in range(C):
        h.equal(np.array(r.thetas)[c], keep[c], "networks as given")
        if dist == "gaussian":
            mean, cov, x = D.normals[c]
            h.equal(np.array(mean), np.zeros(d), "null mean")
            h.equal(np.matmul(np.array(cov), keep[c]), np.eye(d), "covariance = inverse of the network")
        else:
            h.equal(seen[c][0], keep[c], "sampled from its own network")
            x = h.array("x%d" % c, (n, d))
        for s in range(n):
            h.equal(X[c * n + s], x[s], "sample of its own class")
            h.equal(r.data[c][s], x[s], "data of its own class")


def tasks(T, tier):
    th = tier == "thorough"
    for resp in ((-1, 1), (0, 1)):
        for d, beta in ((1, 1), (2, 1), (2, 2), (3, 1)):
            yield T("probability", dict(d=d, resp=resp, beta=beta))
        for d, sw, beta, cons in ((1, 1, 1, ()), (2, 1, 1, ()), (2, 2, 1, ()), (2, 1, 2, ()), (2, 1, 1, (1,)), (3, 1, 1, (0,))) + \
                (((3, 1, 1, ()), (2, 3, 1, ())) if th else ()):
            yield T("gibbs", dict(d=d, sweeps=sw, resp=resp, beta=beta, cons=cons), paths=4000, budget=200)
        for n, d, sw in ((1, 1, 1), (2, 1, 1), (1, 2, 1)) + (((2, 2, 1),) if th else ()):
            yield T("sampler", dict(n=n, d=d, sweeps=sw, resp=resp), paths=4000, budget=200)
        for d in (2,) + ((3,) if th else ()):
            yield T("bounds", dict(d=d, resp=resp), paths=3000, budget=200)
        for r in (1, 2):
            yield T("coupling", dict(resp=resp, rounds=r), paths=3000, budget=200)
        for d in (1, 2, 3):
            yield T("energy", dict(d=d, resp=resp))
        for d, n, beta in ((1, 2, 1), (2, 3, 1), (2, 5, 2)) + (((3, 2, 1),) if th else ()):
            yield T("direct", dict(d=d, n=n, resp=resp, beta=beta))
    yield T("rejected", {})
    for kind in ("ising", "poisson"):
        for d, ch in ((2, 1), (3, 1)) + (((3, 2),) if th else ()):
            yield T("evolve", dict(kind=kind, d=d, change=ch), paths=6000, budget=200)
        for TT in (1, 2) + ((3,) if th else ()):
            for rg in ("erdos-renyi", "scale-free", "small-world", "other"):
                yield T("generator", dict(kind=kind, T=TT, rg=rg, mode="l1"), paths=4000, budget=200)
        yield T("generator", dict(kind=kind, T=2, rg="scale-free", mode="l2"), paths=4000, budget=200)
    for kind, mode in (("ising", "switch"), ("ising", "diffusion"), ("poisson", "reshuffle")):
        yield T("notyet", dict(kind=kind, mode=mode))
    for d in (1, 2, 3):
        for bits in range(2 ** (d * (d - 1) // 2)):
            yield T("poisson", dict(d=d, bits=bits, n=2 if d < 3 else 1, real_lambda=True))
    for d, n, sw in ((2, 1, 1), (2, 2, 1), (2, 1, 2), (3, 1, 1)):
        for given in (False, True):
            yield T("poissongibbs", dict(d=d, n=n, sweeps=sw, given=given))
    for dist in ("ising", "poisson"):
        for axis in ("first", "last"):
            yield T("dataset", dict(dist=dist, n=2, d=2, T=2, axis=axis))
        yield T("dataset", dict(dist=dist, n=1, d=2, T=3, axis="first"))
    for dist in ("gaussian", "ising", "poisson"):
        for n, C in ((1, 1), (2, 2)):
            yield T("classdata", dict(dist=dist, n=n, d=2, C=C))
        for C in (1, 2, 3):
            yield T("classes", dict(dist=dist, d=3, C=C, bits=5))
        yield T("classes", dict(dist=dist, d=5, C=2, bits=0b1000010001), paths=3000, budget=200)
        yield T("classes", dict(dist=dist, d=5, C=2, bits=0b1111111111), paths=3000, budget=200)
