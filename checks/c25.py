"""C25: stability-based selection (edge instabilities and the selected parameter)."""
import numpy as np

BOUNDS = ("1..3 subsamples (thorough: 4) of graphs over 2..3 variables (thorough: 4) and 1..2 times with arbitrary real "
          "precisions; paths of 1..3 parameters (thorough: 4) with arbitrary instabilities")
ASSUMPTIONS = ["GraphicalModelStabilitySelection cannot be constructed with the installed scikit-learn (its base class lost the "
               "argument iid): the selection is decided on _format_results, which holds all of it; the refit is outside of the claim",
               "graphlet distances (netanalytics, not installed) are arbitrary numbers"]
M = "regain.model_selection.stability_optimization"


class Est(object):
    def __init__(self, p):
        self.p = p

    def get_precision(self):
        return self.p


def ensemble(h, n, d, times):
    out = []
    for k in range(n):
        out.append(h.symmetrics("p%d" % k, times, d) if times else h.symmetric("p%d" % k, d))
    return out


def average(h, P, d, times):
    n = len(P)
    s, m = h.lit(0), 0
    for t in range(max(times, 1)):
        for i in range(d):
            for j in range(i + 1, d):
                f = h.lit(0)
                for p in P:
                    f = f + np.where((p[t, i, j] if times else p[i, j]) != 0, h.lit(1), h.lit(0))
                f = f / n
                s = s + 2 * f * (1 - f)
                m += 1
    return s / m


def instability(h, n, d, times, which):
    m = h.mod(M)
    P = ensemble(h, n, d, times)
    keep = [p.copy() for p in P]
    got = getattr(m, which)([Est(p) for p in P])
    for a, b in zip(P, keep):
        h.equal(a, b, "precisions unchanged")
    v = average(h, keep, d, times)
    h.equal(got, v if which == "global_instability" else 4 * v * (1 - v), "instability of the edges")


def span(h, n, d):
    """0 <= instability <= 1/2, null exactly when all graphs agree."""
    m = h.mod(M)
    P = ensemble(h, n, d, 0)
    v = m.global_instability([Est(p) for p in P])
    agree = True
    for i in range(d):
        for j in range(i + 1, d):
            for p in P:
                if (p[i, j] != 0) != (P[0][i, j] != 0):
                    agree = False
    h.leq(h.lit(0), v, "not negative")
    h.leq(v, h.lit(1) / 2, "at most one half")
    h.check((v == 0) if agree else (v > 0), "null iff all graphs agree")


def selector(h, c, s, mode):
    m = h.mod(M)
    cls = m.GraphicalModelStabilitySelection
    e = cls.__new__(cls)
    e.mode, e.return_train_score, e.iid = mode, False, "deprecated"
    v, g, u = h.array("v", (c,), nonneg=True), h.array("g", (c,), nonneg=True), h.array("u", (c,), nonneg=True)
    seen = {"v": [], "g": [], "u": []}

    def by(name, values):
        def f(estimators):
            k = [x.k for x in estimators]
            seen[name].append(tuple(k))
            return values[k[0] // s]
        return f
    h.override(M + ".global_instability", by("v", v))
    h.override(M + ".graphlet_instability", by("g", g))
    h.override(M + ".upper_bound", by("u", u))
    out = []
    for k in range(c * s):
        x = Est(None)
        x.k = k
        out.append(({}, 5, 1.0, 1.0, x))
    params = [{"alpha": 1.0 / (k + 1)} for k in range(c)]
    res = e._format_results(params, {}, s, out)
    if len(seen["v"]) != c:
        raise ImportError("regain: instabilities are computed differently")
    return e, res, v, g, u, seen, params


def mono(v):
    out = []
    for x in v:
        out.append(x if not out else np.maximum(out[-1], x))
    return out


def selection(h, c, s, mode="stars"):
    e, res, v, g, u, seen, params = selector(h, c, s, mode)
    h.check(seen["v"] == [tuple(range(k * s, (k + 1) * s)) for k in range(c)], "estimates of the same parameter are compared")
    m = mono(v)
    h.check(list(res["params"]) == params, "parameters")
    h.equal(res["raw_test_instability"], v, "instabilities")
    h.equal(e.monotonized_instabilities, np.array(m), "monotonised instabilities")
    rank = [int(r) for r in res["rank_test_instability"]]
    best = rank.index(min(rank))
    cut = h.lit(0.05)
    ok = [bool(x <= 0.05) for x in m]
    if mode == "stars":
        if any(ok):
            h.check(ok[best], "selected parameter within the threshold")
            for k in range(c):
                if ok[k]:
                    h.check(m[best] >= m[k], "largest admissible instability")
        else:
            h.check(best == 0, "sparsest parameter when none qualifies")
    else:
        um = mono(u)
        h.equal(e.upper_bounds, np.array(um), "monotonised upper bounds")
        h.equal(e.graphlets_instabilities, g, "graphlet instabilities")
        uk = [bool(x <= 0.05) for x in um]
        lo = max([k for k in range(c) if uk[k]] or [0])
        hi = max([k for k in range(c) if ok[k]] or [c - 1])
        if lo <= hi:
            h.check(lo <= best <= hi, "selected between the bounds")
            for k in range(lo, hi + 1):
                h.check(g[best] <= g[k], "smallest graphlet instability between the bounds")


def order(h, n):
    m = h.mod(M)
    v = h.array("a", (n,))
    w = v.copy()
    for grid in ({"alpha": v}, [{"alpha": v}]):
        out = m._check_param_order(grid)["alpha"]
        h.equal(v, w, "grid unchanged")
        for i in range(n - 1):
            h.check(out[i] >= out[i + 1], "descending")
        h.equal(sum(out[i] for i in range(n)), sum(w[i] for i in range(n)), "same values")
        h.equal(sum(out[i] ** 2 for i in range(n)), sum(w[i] ** 2 for i in range(n)), "same values (squares)")


def tasks(T, tier):
    th = tier == "thorough"
    for which in ("global_instability", "upper_bound"):
        for n, d, t in ((1, 2, 0), (2, 2, 0), (3, 2, 0), (2, 3, 0), (3, 3, 0), (2, 2, 2), (2, 3, 2)) + (((4, 3, 0), (3, 4, 0), (3, 3, 3)) if th else ()):
            yield T("instability", dict(n=n, d=d, times=t, which=which))
    for n, d in ((1, 3), (2, 2), (3, 2), (2, 3)):
        yield T("span", dict(n=n, d=d), paths=2000)
    for c, s in ((1, 2), (2, 2), (3, 1), (3, 2)) + (((4, 2),) if th else ()):
        yield T("selection", dict(c=c, s=s), paths=3000, budget=200)
        yield T("selection", dict(c=c, s=s, mode="gstars"), paths=6000, budget=200)
    yield T("order", dict(n=2))
    yield T("order", dict(n=3), paths=400)
