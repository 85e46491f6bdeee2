"""C01: entry-wise soft thresholding is the exact l1 proximal map."""
import numpy as np

BOUNDS = "vectors of 1..3, matrices 2x2..3x3, batches of 1..2; all real entries, all thresholds >= 0"


def prox_l1(a, lam):
    """Declarative: the unique x with a - x in lam * subdifferential |x|."""
    return np.where(a > lam, a - lam, np.where(a < -lam, a + lam, 0 * a))


def lam_of(h, kind, shape):
    if kind == "scalar":
        return h.nonneg("lam")
    if kind == "full":
        return h.array("lam", shape, nonneg=True)
    if kind == "batch":
        return h.array("lam", (shape[0],) + (1,) * (len(shape) - 1), nonneg=True)


def soft(h, shape, lam):
    prox = h.mod("regain.prox")
    a = h.array("a", shape)
    a0 = a.copy()
    l = lam_of(h, lam, shape)
    out = prox.soft_thresholding(a, l)
    h.equal(out, prox_l1(a0, l), "value")
    h.equal(a, a0, "input unchanged")
    # optimality against an arbitrary competitor (objective never beaten)
    y = h.array("y", shape)
    f = l * np.abs(out) + (out - a0) ** 2 / 2
    g = l * np.abs(y) + (y - a0) ** 2 / 2
    h.leq(f, g, "not beaten by any competitor")


def soft_od(h, shape, lam):
    prox = h.mod("regain.prox")
    a = h.array("a", shape)
    a0 = a.copy()
    l = lam_of(h, lam, shape)
    out = prox.soft_thresholding_off_diagonal(a, l)
    ref = prox_l1(a0, l)
    d = shape[-1]
    for i in range(d):
        ref[..., i, i] = a0[..., i, i]
    h.equal(out, ref, "value")
    h.equal(a, a0, "input unchanged")
    out2 = prox.soft_thresholding_off_diagonal(a, l)
    out[...] = 0
    h.equal(a, a0, "result does not alias the input")
    h.equal(out2, ref, "repeatable")


def diag_helpers(h, batch, d):
    m = h.mod("regain.math")
    shape = batch + (d, d)
    a = h.array("a", shape)
    a0 = a.copy()
    dg = m.get_diagonal(a)
    x = h.array("x", batch + (d,))
    c = m.create_from_diagonal(x)
    ref = np.zeros(shape)
    for i in range(d):
        h.equal(dg[..., i], a0[..., i, i], "diagonal read")
        ref[..., i, i] = x[..., i]
    h.equal(c, ref, "diagonal matrix")
    m.fill_diagonal(a, x)
    for i in range(d):
        a0[..., i, i] = x[..., i]
    h.equal(a, a0, "only the diagonal is written")


def tasks(T, tier):
    for shape in ((1,), (3,), (2, 2), (3, 3), (2, 2, 2), (1, 3, 3)):
        for lam in ("scalar", "full") + (("batch",) if len(shape) > 1 else ()):
            yield T("soft", dict(shape=shape, lam=lam))
    for shape in ((2, 2), (3, 3), (4, 4), (2, 2, 2), (3, 3, 3), (1, 2, 2)):
        for lam in ("scalar", "full") + (("batch",) if len(shape) > 2 else ()):
            yield T("soft_od", dict(shape=shape, lam=lam))
    for batch, d in (((), 2), ((), 3), ((2,), 2), ((3,), 3), ((2, 2), 2)):
        yield T("diag_helpers", dict(batch=batch, d=d))
