"""Estimator classes, the solver each one wraps, and the parameters that solver must be given."""
import numpy as np

C = "regain.covariance."
INFO = {
    "gl": (C + "graphical_lasso_", "GraphicalLasso", "graphical_lasso", ("alpha", "over_relax")),
    "lgl": (C + "latent_graphical_lasso_", "LatentGraphicalLasso", "latent_graphical_lasso", ("alpha", "tau")),
    "tgl": (C + "time_graphical_lasso_", "TimeGraphicalLasso", "time_graphical_lasso", ("alpha", "beta", "psi")),
    "ltgl": (C + "latent_time_graphical_lasso_", "LatentTimeGraphicalLasso", "latent_time_graphical_lasso",
             ("alpha", "tau", "beta", "eta", "psi", "phi")),
    "ktgl": (C + "kernel_time_graphical_lasso_", "KernelTimeGraphicalLasso", "kernel_time_graphical_lasso",
             ("alpha", "psi", "kernel")),
    "stgl": (C + "kernel_time_graphical_lasso_", "SimilarityTimeGraphicalLasso", "kernel_time_graphical_lasso",
             ("alpha", "psi", "kernel")),
    "kltgl": (C + "kernel_latent_time_graphical_lasso_", "KernelLatentTimeGraphicalLasso",
              "kernel_latent_time_graphical_lasso", ("alpha", "tau", "psi", "phi", "kernel_psi", "kernel_phi")),
    "sltgl": (C + "kernel_latent_time_graphical_lasso_", "SimilarityLatentTimeGraphicalLasso",
              "kernel_latent_time_graphical_lasso", ("alpha", "tau", "psi", "phi", "kernel_psi", "kernel_phi")),
}
LATENT = ("lgl", "ltgl", "kltgl", "sltgl")
STATIC = ("gl", "lgl")
HISTORY = ("tgl", "ktgl", "stgl", "kltgl", "sltgl")


class ScaleKernel(object):
    """A kernel with a length scale, like sklearn's RBF (a rational function of the times)."""

    def __init__(self, length_scale=1.0):
        self.l = length_scale

    def __call__(self, x, y=None):
        n = x.shape[0]
        k = np.zeros((n, n))
        for i in range(n):
            for j in range(n):
                k[i, j] = self.l / (self.l + (x[i, 0] - x[j, 0]) * (x[i, 0] - x[j, 0]))
        return k


class ConstKernel(object):
    """A kernel with a constant value, like sklearn's ConstantKernel."""

    def __init__(self, constant_value=1.0):
        self.c = constant_value

    def __call__(self, x, y=None):
        return np.ones((x.shape[0], x.shape[0])) * self.c


def labels(h, y):
    """y: tuple of label values, or a number of symbolic real labels (every order and coincidence is explored)."""
    if isinstance(y, int):
        return h.array("y", (y,))
    return np.array(y)


def groups(y):
    """Sorted distinct labels and the sample indices of each."""
    vals, idx = [], []
    for i in range(len(y)):
        for k in range(len(vals)):
            if vals[k] == y[i]:
                idx[k].append(i)
                break
        else:
            k = 0
            while k < len(vals) and vals[k] < y[i]:
                k += 1
            vals.insert(k, y[i])
            idx.insert(k, [i])
    return vals, idx


def covariance(h, X, rows, center):
    """Maximum-likelihood covariance of the given rows, centred at their mean or (None: zero) at center."""
    d = X.shape[1]
    c = np.zeros((d, d))
    m = [0] * d
    if center:
        m = []
        for j in range(d):
            s = 0
            for r in rows:
                s = s + X[r, j]
            m.append(s / len(rows))
    for i in range(d):
        for j in range(d):
            s = 0
            for r in rows:
                s = s + (X[r, i] - m[i]) * (X[r, j] - m[j])
            c[i, j] = s / len(rows)
    return c, m
