"""C24: clustering of graphs (representatives, distances, similarity kernel)."""
import itertools

import numpy as np

BOUNDS = ("up to 3 graphs over 2 variables (2 graphs over 3 variables for distances and representatives) with arbitrary real "
          "entries, 1..3 initial representatives in any order, up to 2 iterations (thorough: 3)")
ASSUMPTIONS = ["numpy.random.shuffle puts the indices in an arbitrary order (each order is explored)"]
M = "regain.clustering"


def differs(a, b):
    return np.where((a != 0) != (b != 0), 1, 0)


def distance(h, g, r):
    d = g.shape[0]
    s = h.lit(0)
    for i in range(d):
        for j in range(d):
            s = s + (1 if (g[i, j] != 0) != (r[i, j] != 0) else 0)
    return s / 2


def common(h, graphs):
    d = graphs[0].shape[0]
    out = np.zeros((d, d))
    for i in range(d):
        for j in range(d):
            out[i, j] = 1 if all(g[i, j] != 0 for g in graphs) else 0
    return out


def graphs_of(h, n, d, diag=False):
    gs = []
    for t in range(n):
        g = h.symmetric("g%d" % t, d)
        if not diag:
            for i in range(d):
                g[i, i] = h.lit(1)
        gs.append(g)
    return gs


def distances(h, n, m, d, diag):
    f = h.mod(M).compute_distances
    G, R = graphs_of(h, n, d, diag), [h.symmetric("r%d" % k, d) for k in range(m)]
    keep = [g.copy() for g in G + R]
    D = f(G, R)
    for a, b in zip(G + R, keep):
        h.equal(a, b, "graphs unchanged")
    E = f(R, G)
    S = f(G, G)
    for i in range(n):
        for j in range(m):
            h.equal(D[i, j], distance(h, G[i], R[j]), "distance counts the edges of exactly one of the two graphs")
            h.equal(E[j, i], D[i, j], "symmetric")
        h.equal(S[i, i], h.lit(0), "null for the same graph")
    h.check(D.shape == (n, m), "one row per graph, one column per representative")


def representative(h, n, d):
    G = graphs_of(h, n, d, diag=True)
    keep = [g.copy() for g in G]
    r = h.mod(M).get_representative(G)
    for a, b in zip(G, keep):
        h.equal(a, b, "graphs unchanged")
    h.equal(r, common(h, keep), "edges common to all members")


def kmeans(h, n, k, perm, N):
    m = h.mod(M)
    G = graphs_of(h, n, 2)
    keep = [g.copy() for g in G]

    used = []

    def shuffle(x):
        used.append(1)
        x[:] = np.array(perm)
    h.override("numpy.random.shuffle", shuffle)
    h.reset_warnings()
    K = m.graph_k_means(G, k, max_iter=N)
    if not used:
        raise ImportError("regain: the start is drawn differently")
    warned = len(h.warned()) > 0
    for a, b in zip(G, keep):
        h.equal(a, b, "graphs unchanged")
    reps = [keep[i] for i in perm[:k]]
    prev = None
    stopped = False
    for _ in range(N):
        D = [[distance(h, g, r) for r in reps] for g in keep]
        labels = []
        for row in D:
            b = 0
            for j in range(1, len(row)):
                if row[j] < row[b]:
                    b = j
            labels.append(b)
        reps = [common(h, [g for g, l in zip(keep, labels) if l == v]) for v in sorted(set(labels))]
        if labels == prev:
            stopped = True
            break
        prev = labels
    S = []
    for row in D:
        mx = row[0]
        for v in row[1:]:
            mx = v if v > mx else mx
        S.append([1 - v / mx if mx > 0 else h.lit(1) for v in row])
    for i in range(n):
        for j in range(n):
            h.equal(K[i, j], sum(a * b for a, b in zip(S[i], S[j])), "kernel of the similarities to the representatives")
    h.check(warned != stopped, "warns iff the assignment still changed in the last iteration")


def tasks(T, tier):
    th = tier == "thorough"
    for n, m, d, diag in ((1, 1, 2, True), (2, 1, 2, False), (1, 2, 2, True), (1, 1, 3, False)) + (((2, 2, 2, False),) if th else ()):
        yield T("distances", dict(n=n, m=m, d=d, diag=diag), paths=3000, budget=200)
    for n, d in ((1, 2), (2, 2), (3, 2), (2, 3)):
        yield T("representative", dict(n=n, d=d), paths=3000, budget=200)
    for n in (1, 2, 3):
        for k in range(1, n + 1):
            for perm in itertools.permutations(range(n)):
                for N in (1, 2) + ((3,) if th else ()):
                    yield T("kmeans", dict(n=n, k=k, perm=perm, N=N), paths=3000, budget=200)
