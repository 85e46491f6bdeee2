"""C03: log-det and nuclear-norm/PSD proximal steps."""
import numpy as np

BOUNDS = ("symmetric 1x1, 2x2 matrices (3x3: stationarity/complementarity and symmetry, not the cone), batches of 1..2; all real entries, steps > 0, thresholds >= 0; "
          "scalar steps and one step per matrix")
ASSUMPTIONS = ["numpy.linalg.eigh returns real eigenvalues in ascending order and an orthonormal eigenbasis of the lower triangle"]


def sym_in(h, batch, d):
    if batch:
        return h.symmetrics("a", batch, d)
    return h.symmetric("a", d)


def step_of(h, kind, batch):
    if kind == "scalar":
        return h.pos("lam"), None
    l = h.array("lam", (batch, 1), pos=True)
    return l, l[:, 0]


def mats(x):
    return x if x.ndim == 3 else x[None]


def transpose(x):
    return np.swapaxes(x, -1, -2)


def pd(h, m, label, strict=True):
    """All principal minors of order 1 and 2."""
    d = m.shape[0]
    if d > 2:
        return      # cone membership of 3x3 results is beyond the solver; their stationarity is decided
    for i in range(d):
        if strict:
            h.check(m[i, i] > 0, label + ": diagonal")
        else:
            h.leq(0, m[i, i], label + ": diagonal")
        for j in range(i):
            m2 = m[i, i] * m[j, j] - m[i, j] * m[j, i]
            if strict:
                h.check(m2 > 0, label + ": minor 2")
            else:
                h.leq(0, m2, label + ": minor 2")


def logdet(h, fn, batch, d, lam):
    """X/step - inv(X) + A = 0, multiplied by X; X symmetric positive definite."""
    prox = h.mod("regain.prox")
    a = sym_in(h, batch, d)
    a0 = a.copy()
    l, per = step_of(h, lam, batch)
    out = getattr(prox, fn)(a, l)
    h.check(out.shape == a0.shape, "shape")
    h.equal(a, a0, "input unchanged")
    h.equal(out, transpose(out), "symmetric")
    o, m = mats(out), mats(a0)
    for t in range(o.shape[0]):
        lt = l if per is None else per[t]
        x, at = o[t], m[t]
        if fn == "prox_logdet":
            res = np.matmul(x, x) / lt + np.matmul(at, x) - np.eye(d)
        else:
            res = np.matmul(x, x) + np.matmul(at, x) - lt * np.eye(d)
        h.equal(res, np.zeros((d, d)), "stationarity")
        pd(h, x, "positive definite")


def trace(h, batch, d, lam):
    """X = (A - lam I)_+ : X PSD, X - (A - lam I) PSD and complementary."""
    prox = h.mod("regain.prox")
    a = sym_in(h, batch, d)
    a0 = a.copy()
    l, per = step_of(h, lam, batch)
    out = prox.prox_trace_indicator(a, l)
    h.check(out.shape == a0.shape, "shape")
    h.equal(a, a0, "input unchanged")
    h.equal(out, transpose(out), "symmetric")
    o, m = mats(out), mats(a0)
    for t in range(o.shape[0]):
        lt = l if per is None else per[t]
        x = o[t]
        y = x - (m[t] - lt * np.eye(d))
        pd(h, x, "PSD", strict=False)
        pd(h, y, "multiplier PSD", strict=False)
        h.equal(np.matmul(x, y), np.zeros((d, d)), "complementarity")


def tasks(T, tier):
    for batch, lam in ((0, "scalar"), (1, "scalar"), (2, "scalar"), (1, "batch"), (2, "batch")):
        for d in (1, 2):
            for fn in ("prox_logdet", "prox_logdet_ala_ma"):
                yield T("logdet", dict(fn=fn, batch=batch, d=d, lam=lam), extra={"eigh_axioms": True})
            yield T("trace", dict(batch=batch, d=d, lam=lam), extra={"eigh_axioms": True})
    for fn in ("prox_logdet", "prox_logdet_ala_ma"):
        yield T("logdet", dict(fn=fn, batch=0, d=3, lam="scalar"), extra={"eigh_axioms": True})
    yield T("trace", dict(batch=0, d=3, lam="scalar"), extra={"eigh_axioms": True})
