"""C22: matrix helpers."""
import numpy as np

BOUNDS = ("vectors of 1, 3, 6 and 10 entries, matrices 2x2 and 3x3 and batches of two 2x2, arbitrary real entries (symmetric where "
          "the helper expects it); top-n for up to 2x3 entries and every n; any thresholds; up to 3 classes with 2 samples each")
ASSUMPTIONS = ["entries are compared exactly (real arithmetic); bottleneck.argpartition returns the n largest entries last"]


def upper(h, n):
    u = h.mod("regain.utils")
    a = h.array("a", (n * (n + 1) // 2,))
    a0 = a.copy()
    A = u.upper_to_full(a)
    h.check(A.shape == (n, n), "size")
    k = 0
    for i in range(n):
        for j in range(i, n):
            h.equal(A[i, j], a0[k], "upper triangle row by row")
            h.equal(A[j, i], a0[k], "mirrored below the diagonal")
            k += 1
    h.equal(a, a0, "input unchanged")


def normalize(h, d):
    u = h.mod("regain.utils")
    x = h.array("x", (d, d))
    for i in range(d):
        x[i, i] = h.pos("p_%d" % i)
    x0 = x.copy()
    u.normalize_matrix(x)
    for i in range(d):
        h.equal(x[i, i], 1, "unit diagonal")
        for j in range(d):
            h.equal(x[i, j], x0[i, j] / (np.sqrt(x0[i, i]) * np.sqrt(x0[j, j])), "entry scaled by both diagonal roots")


def minors(x):
    d = x.shape[0]
    out = [x[0, 0]]
    if d > 1:
        out.append(x[0, 0] * x[1, 1] - x[1, 0] * x[1, 0])
    if d > 2:
        out.append(x[0, 0] * (x[1, 1] * x[2, 2] - x[2, 1] * x[2, 1]) - x[1, 0] * (x[1, 0] * x[2, 2] - x[2, 1] * x[2, 0])
                   + x[2, 0] * (x[1, 0] * x[2, 1] - x[1, 1] * x[2, 0]))
    return out


def posdef(h, d, batch=0):
    """is_pos_def / positive_definite decide positive definiteness (Sylvester's criterion)."""
    u = h.mod("regain.utils")
    if batch:
        x = h.symmetrics("x", batch, d)
        want = True
        for b in range(batch):
            for m in minors(x[b]):
                if want and not (m > 0):
                    want = False
        x0 = x.copy()
        h.check(bool(u.positive_definite(x)) == want, "all matrices positive definite")
    else:
        x = h.symmetric("x", d)
        x0 = x.copy()
        want = True
        for m in minors(x):
            if want and not (m > 0):
                want = False
        h.check(bool(u.is_pos_def(x)) == want, "positive definite (Cholesky)")
        h.check(bool(u.positive_definite(x)) == want, "positive definite")
    h.equal(x, x0, "input unchanged")


def eig(h, tolerance=False):
    """Eigenvalue based tests of 2x2 matrices; eigenvalues within the tolerance count as zero."""
    u = h.mod("regain.utils")
    x = h.symmetric("x", 2)
    x0 = x.copy()
    tol = h.pos("tol") if tolerance else None
    kw = dict(tol=tol) if tolerance else {}
    tol = tol if tolerance else 1e-15
    r = np.sqrt((x[0, 0] - x[1, 1]) * (x[0, 0] - x[1, 1]) + 4 * x[1, 0] * x[1, 0])
    lo = (x[0, 0] + x[1, 1] - r) / 2
    hi = (x[0, 0] + x[1, 1] + r) / 2
    h.assume(lo <= hi)
    h.check(bool(u.is_pos_def(x, chol=False, **kw)) == bool(lo >= tol), "positive definite (eigenvalues)")
    h.check(bool(u.is_pos_semidef(x, **kw)) == bool(lo > -tol), "positive semi-definite")
    h.equal(x, x0, "input unchanged")


def repair(h, d, batch=0):
    u = h.mod("regain.utils")
    x = h.symmetrics("x", batch, d) if batch else h.symmetric("x", d)
    x0 = x.copy()
    u.ensure_posdef(x)
    for b in range(batch or 1):
        y, y0 = (x[b], x0[b]) if batch else (x, x0)
        good = True
        for m in minors(y0):
            if good and not (m > 0):
                good = False
        if good:
            h.equal(y, y0, "a positive definite matrix is left alone")
            continue
        for i in range(d):
            s = h.lit(0)
            for j in range(d):
                if i != j:
                    h.equal(y[i, j], y0[i, j], "off-diagonal entries are kept")
                    s = s + np.abs(y0[i, j])
            h.check(y[i, i] > s, "diagonal dominates its row: positive definite")


def threshold(h, lo, hi, val):
    u = h.mod("regain.utils")
    a = h.array("a", (2, 2))
    a0 = a.copy()
    kw = {}
    if lo:
        kw["threshmin"] = h.real("lo")
    if hi:
        kw["threshmax"] = h.real("hi")
    if val:
        kw["newval"] = h.real("new")
    out = u.threshold(a, **kw)
    for ix in np.ndindex(2, 2):
        x = a0[ix]
        cut = False
        if lo and x < kw["threshmin"]:
            cut = True
        elif hi and x > kw["threshmax"]:
            cut = True
        h.equal(out[ix], (kw["newval"] if val else 0) if cut else x, "entry replaced iff out of range")
    h.equal(a, a0, "input unchanged")


def topn(h, shape, n):
    """Exactly n entries kept, none smaller (in absolute value) than a dropped one."""
    u = h.mod("regain.utils")
    a = h.array("a", shape)
    a0 = a.copy()
    for ix in np.ndindex(*shape):
        h.assume(a0[ix] != 0)
    out = u.retain_top_n(a, n)
    h.equal(a, a0, "input unchanged")
    kept, gone = [], []
    for ix in np.ndindex(*shape):
        if out[ix] != 0:
            h.equal(out[ix], a0[ix], "kept entries have their value")
            kept.append(ix)
        else:
            gone.append(ix)
    h.check(len(kept) == n, "n entries kept")
    for i in kept:
        for j in gone:
            h.leq(np.abs(a0[j]), np.abs(a0[i]), "largest entries kept")


def order(h):
    u = h.mod("regain.utils")
    a = [h.real("a%d" % i) for i in range(6)]
    flat = u.flatten([a[0], [a[1], [a[2], a[3]]], [], [[a[4]], a[5]]])
    h.check(len(flat) == 6, "every leaf once")
    for x, y in zip(flat, a):
        h.equal(x, y, "leaves in order")
    m = np.array([[a[0], a[1]], [a[2], a[3]]])
    flat = u.flatten([m, a[4]])
    h.check(len(flat) == 5, "every entry once")
    for x, y in zip(flat, a):
        h.equal(x, y, "entries row by row")
    f = u.compose(lambda x: x + a[1], lambda x: x * a[2], lambda x: x - a[3])
    h.equal(f(a[0]), (a[0] - a[3]) * a[2] + a[1], "composition applies the last function first")
    h.equal(u.compose()(a[0]), a[0], "empty composition is the identity")


def stacking(h, T, n, d, aslist):
    u = h.mod("regain.utils")
    data = h.array("x", (T, n, d))
    d0 = data.copy()
    X, y = u.convert_data_to_2d([data[t] for t in range(T)] if aslist else data)
    h.check(X.shape == (T * n, d) and y.shape == (T * n,), "one row and one label per sample")
    for t in range(T):
        for i in range(n):
            h.equal(X[t * n + i], d0[t, i], "samples in order")
            h.equal(y[t * n + i], t, "label is the position of the class")
    h.equal(data, d0, "input unchanged")


def diagonals(h, shape):
    """Batched diagonal helpers."""
    m = h.mod("regain.math")
    a = h.array("a", shape)
    a0 = a.copy()
    g = m.get_diagonal(a).copy()
    v = h.array("v", shape[:-1])
    c = m.create_from_diagonal(v)
    m.fill_diagonal(a, v)
    for ix in np.ndindex(*shape):
        if ix[-1] == ix[-2]:
            h.equal(g[ix[:-1]], a0[ix], "diagonal read")
            h.equal(a[ix], v[ix[:-1]], "diagonal written")
            h.equal(c[ix], v[ix[:-1]], "diagonal created")
        else:
            h.equal(a[ix], a0[ix], "off-diagonal entries kept")
            h.equal(c[ix], 0, "zero off the diagonal")


def logdet(h, T, d):
    m = h.mod("regain.math")
    A = h.symmetrics("A", T, d)
    out = m.batch_logdet(A)
    for t in range(T):
        sign, ld = np.linalg.slogdet(A[t])
        h.equal(out[t], np.where(sign > 0, ld, -np.inf), "log-determinant of each matrix, -inf unless positive")


def tasks(T, tier):
    for n in (1, 2, 3, 4) + ((5, 6) if tier == "thorough" else ()):
        yield T("upper", dict(n=n))
    for d in (1, 2, 3):
        yield T("normalize", dict(d=d))
        yield T("posdef", dict(d=d))
        yield T("repair", dict(d=d))
    yield T("posdef", dict(d=2, batch=2))
    yield T("repair", dict(d=2, batch=2))
    yield T("eig", dict())
    yield T("eig", dict(tolerance=True))
    for lo in (True, False):
        for hi in (True, False):
            yield T("threshold", dict(lo=lo, hi=hi, val=lo))
    for n in (1, 2, 3, 4):
        yield T("topn", dict(shape=(2, 2), n=n))
    yield T("topn", dict(shape=(1, 3), n=2))
    if tier == "thorough":
        for n in (1, 3, 5):
            yield T("topn", dict(shape=(2, 3), n=n), paths=5000, budget=600)
    yield T("order", dict())
    for l in (True, False):
        yield T("stacking", dict(T=3, n=2, d=2, aslist=l))
    yield T("stacking", dict(T=1, n=3, d=1, aslist=False))
    for s in ((2, 2), (3, 3), (2, 2, 2), (2, 1, 3, 3)):
        yield T("diagonals", dict(shape=s))
    yield T("logdet", dict(T=2, d=2))
    yield T("logdet", dict(T=1, d=3))
