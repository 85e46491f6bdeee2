"""C02: column-wise group soft thresholding."""
import numpy as np

BOUNDS = "matrices 1x1..3x3 (and 2x3), batches of 1..2; all real entries, thresholds >= 0 scalar, per matrix and per column; zero columns forked explicitly"
ASSUMPTIONS = ["division by zero is forked: x/0 yields +-inf or nan as in numpy"]


def group_ref(a, lam):
    """x = 0 if ||a_j|| <= lam else (1 - lam/||a_j||) a_j for each column j; lam broadcasts over columns."""
    out = np.zeros(a.shape)
    m, n = a.shape[-2:]
    lam = lam + np.zeros(a.shape[:-2] + (1, n))
    for ix in np.ndindex(*a.shape[:-2]):
        for j in range(n):
            col = a[ix + (slice(None), j)]
            l = lam[ix + (0, j)]
            nrm = np.sqrt((col * col).sum())
            if nrm > l:
                for i in range(m):
                    out[ix + (i, j)] = col[i] - l * col[i] / nrm
    return out


def lam_of(h, kind, shape):
    if kind == "zero":
        return h.lit(0)
    if kind == "scalar":
        return h.pos("lam")
    if kind == "batch":
        return h.array("lam", (shape[0],) + (1,) * (len(shape) - 1), pos=True)
    if kind == "column":
        return h.array("lam", shape[:-2] + (1, shape[-1]), pos=True)


def group(h, shape, lam):
    prox = h.mod("regain.prox")
    if h.sym:
        h.cx.div_fork = True
    a = h.array("a", shape)
    zc = h.flag("zero_column") if shape[-1] > 0 else False
    if zc:
        a[..., 0] = 0
    a0 = a.copy()
    l = lam_of(h, lam, shape)
    fn = prox.blockwise_soft_thresholding
    if lam == "column":
        # thresholds broadcast against the transposed (column-major) view
        out = fn(a, np.swapaxes(l, -1, -2))
    else:
        out = fn(a, l)
    h.finite(out, "finite")
    h.equal(out, group_ref(a0, l), "value")
    h.equal(a, a0, "input unchanged")


def group_symmetric(h, shape, lam):
    prox = h.mod("regain.prox")
    if h.sym:
        h.cx.div_fork = True
    n = shape[-1]
    a = h.array("a", shape)
    for i in range(n):
        for j in range(i):
            a[..., i, j] = a[..., j, i]
    if h.flag("zero_column"):
        a[..., 0] = 0
        a[..., 0, :] = 0
    a0 = a.copy()
    l = lam_of(h, lam, shape)
    out = prox.blockwise_soft_thresholding_symmetric(a, l)
    h.finite(out, "finite")
    h.equal(out, group_ref(a0, l), "value")
    h.equal(a, a0, "input unchanged")


def vector(h, shape):
    """Row-wise shrinkage of vectors."""
    prox = h.mod("regain.prox")
    if h.sym:
        h.cx.div_fork = True
    a = h.array("a", shape)
    if h.flag("zero_row"):
        a[..., 0, :] = 0
    a0 = a.copy()
    l = h.pos("lam")
    out = prox.soft_thresholding_vector(a, l)
    h.finite(out, "finite")
    h.equal(out, np.swapaxes(group_ref(np.swapaxes(a0, -1, -2), l), -1, -2), "value")
    h.equal(a, a0, "input unchanged")


def tasks(T, tier):
    for shape in ((1, 1), (2, 2), (3, 3), (2, 3), (3, 2), (1, 2, 2), (2, 2, 2)):
        for lam in ("scalar", "zero", "column") + (("batch",) if len(shape) > 2 else ()):
            yield T("group", dict(shape=shape, lam=lam))
    for shape in ((2, 2), (3, 3), (1, 2, 2), (2, 2, 2)):
        for lam in ("scalar",) + (("batch",) if len(shape) > 2 else ()):
            yield T("group_symmetric", dict(shape=shape, lam=lam))
    for shape in ((2, 2), (3, 2), (2, 2, 2)):
        yield T("vector", dict(shape=shape))
