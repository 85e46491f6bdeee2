"""C15: scores and error norms."""
import numpy as np

import estimators as E

BOUNDS = ("1..3 classes, 1..3 samples per class (concrete label patterns in any order), 2 features; all real data, locations and "
          "precision matrices; error norms of 1..2 pairs of 2x2 matrices (3x3 for Frobenius)")
ASSUMPTIONS = ["scores are evaluated on estimators whose fitted attributes are set to arbitrary values (what fit stores there is "
               "decided by C14)",
               "the Gaussian log-likelihood of a class is minus infinity when the determinant is not positive"]


def loglik(h, emp, K):
    """Mean Gaussian log-likelihood with covariance emp (second moments about the location) under precision K."""
    d = K.shape[0]
    tr = 0
    for i in range(d):
        for j in range(d):
            tr = tr + emp[i, j] * K[i, j]
    det = K[0, 0] * K[1, 1] - K[0, 1] * K[1, 0]
    return (np.log(det) - tr - d * h.log2pi()) / 2


def score(h, est, y):
    mod, cls, fn, names = E.INFO[est]
    e = getattr(h.mod(mod), cls)()
    y = np.array(y)
    X = h.array("X", (len(y), 2))
    vals, idx = E.groups(y)
    T = len(vals)
    loc = h.array("loc", (T, 2))
    e.location_ = loc
    e.classes_ = np.array(vals)
    P = np.array([h.spd("P%d" % t, 2) for t in range(T)])
    if est in E.LATENT:
        L = h.symmetrics("L", T, 2)
        e.latent_ = L
        e.precision_ = P + L
    else:
        e.precision_ = P
    X0, y0, l0, p0 = X.copy(), y.copy(), loc.copy(), e.precision_.copy()
    out = e.score(X, y)
    ref = 0
    for t in range(T):
        emp = np.zeros((2, 2))
        for r in idx[t]:
            for i in range(2):
                for j in range(2):
                    emp[i, j] = emp[i, j] + (X0[r, i] - l0[t, i]) * (X0[r, j] - l0[t, j]) / len(idx[t])
        ref = ref + len(idx[t]) * loglik(h, emp, P[t])
    h.equal(out, ref, "sum over classes of size times log-likelihood of the class")
    h.equal(X, X0, "data unchanged")
    h.equal(y, y0, "labels unchanged")
    h.equal(e.location_, l0, "location unchanged")
    h.equal(e.precision_, p0, "precision unchanged")


def single(h, est, n):
    """Static estimators: mean log-likelihood of the data about the fitted location."""
    mod, cls, fn, names = E.INFO[est]
    e = getattr(h.mod(mod), cls)()
    X = h.array("X", (n, 2))
    loc = h.array("loc", (2,))
    P = h.spd("P", 2)
    e.location_ = loc
    if est in E.LATENT:
        L = h.symmetric("L", 2)
        e.latent_ = L
        e.precision_ = P + L
    else:
        e.precision_ = P
    h.equal(e.get_precision(), P, "observed precision")


def frob(a):
    s = 0
    for v in a.ravel():
        s = s + v * v
    return s


def largest(m):
    """Largest eigenvalue of a positive semidefinite symmetric 2x2 matrix."""
    a, b, c = m[0, 0], m[0, 1], m[1, 1]
    return ((a + c) + np.sqrt((a + c) * (a + c) - 4 * (a * c - b * b))) / 2


def errors(h, via, norm, scaling, squared, T, d):
    A, B = h.array("A", (T, d, d)), h.array("B", (T, d, d))
    A0, B0 = A.copy(), B.copy()
    if via == "estimator":
        mod, cls, fn, names = E.INFO["tgl"]
        e = getattr(h.mod(mod), cls)()
        e.covariance_ = A
        out = e.error_norm(B, norm=norm, scaling=scaling, squared=squared)
    elif via == "time":
        out = h.mod("regain.utils").error_norm_time(A, B, norm=norm, scaling=scaling, squared=squared)
    else:
        out = h.mod("regain.utils").error_norm(A[0], B[0], norm=norm, scaling=scaling, squared=squared)
    tot = 0
    for t in range(T):
        D = B0[t] - A0[t]
        if norm == "frobenius":
            v = frob(D)
        else:
            v = largest(h.matmul(D.T, D))
        if scaling:
            v = v / d
        if not squared:
            v = np.sqrt(v)
        tot = tot + v
    h.equal(out, tot / T, "error norm", tol=1e-5)
    h.equal(A, A0, "input unchanged")
    h.equal(B, B0, "input unchanged")


def defaults(h, d):
    """Default arguments: scaled squared Frobenius norm."""
    A, B = h.array("A", (1, d, d)), h.array("B", (1, d, d))
    out = h.mod("regain.utils").error_norm_time(A, B)
    h.equal(out, frob(B[0] - A[0]) / d, "error norm")


def unknown(h):
    h.real("unused")
    u = h.mod("regain.utils")
    h.raises(NotImplementedError, lambda: u.error_norm(np.eye(2), np.eye(2), norm="nuclear"), "unknown norm is rejected")


def tasks(T, tier):
    for est in ("tgl", "ltgl", "ktgl", "kltgl", "stgl", "sltgl"):
        for y in ((0, 1), (1, 0, 1), (7, -2, 7, -2, -2), (2, 1, 0, 1), (1, 2), (5, 8, 5, 4), (0.5, 3.5, 0.5), (3, 3)):
            yield T("score", dict(est=est, y=y))
    for est in ("gl", "lgl"):
        yield T("single", dict(est=est, n=2))
    for sc in (True, False):
        for sq in (True, False):
            yield T("errors", dict(via="estimator", norm="frobenius", scaling=sc, squared=sq, T=2, d=2))
            yield T("errors", dict(via="time", norm="frobenius", scaling=sc, squared=sq, T=3, d=2))
            yield T("errors", dict(via="one", norm="frobenius", scaling=sc, squared=sq, T=1, d=3))
            yield T("errors", dict(via="one", norm="spectral", scaling=sc, squared=sq, T=1, d=2))
            yield T("errors", dict(via="time", norm="spectral", scaling=sc, squared=sq, T=2, d=2))
    yield T("defaults", dict(d=2))
    yield T("unknown", dict(), samples=2)
