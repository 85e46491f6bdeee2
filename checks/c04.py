"""C04: temporal penalty names, penalties and proximal maps."""
import numpy as np

from c02 import group_ref
from c01 import prox_l1

BOUNDS = ("penalty names laplacian, l1, l2, linf, node and arbitrary other strings from a list; differences of 1..2 matrices "
          "of size 1x1..2x2 (3x3 for the values); all real entries, weights >= 0, scalar or one per matrix")
ASSUMPTIONS = ["the node penalty's value (scipy.optimize.minimize) and its iterative proximal map are outside of the claim, only the pairing of the name is checked"]

NAMES = ("laplacian", "l1", "l2", "linf")


def pen(name, x):
    """The documented penalty of one matrix."""
    if name == "laplacian":
        return (x * x).sum()
    if name == "l1":
        return np.abs(x).sum()
    tot = 0
    for j in range(x.shape[1]):
        if name == "l2":
            tot = tot + np.sqrt((x[:, j] * x[:, j]).sum())
        else:
            m = np.abs(x[0, j])
            for i in range(1, x.shape[0]):
                m = np.maximum(m, np.abs(x[i, j]))
            tot = tot + m
    return tot


def linf_ref(h, a, lam):
    """min lam*max|x| + |x-a|^2/2 for one column: truncate at level tau where sum (|a|-tau)_+ = lam."""
    n = a.shape[0]
    s = [np.abs(v) for v in a]
    tot = s[0]
    for v in s[1:]:
        tot = tot + v
    if tot <= lam:
        return np.zeros(n)
    # find the level by activating the k largest entries
    order = list(range(n))
    for i in range(n):
        for j in range(i + 1, n):
            if s[order[j]] > s[order[i]]:
                order[i], order[j] = order[j], order[i]
    acc = 0
    level = None
    for k in range(n):
        acc = acc + s[order[k]]
        level = (acc - lam) / (k + 1)
        if k + 1 == n or s[order[k + 1]] <= level:
            break
    out = np.zeros(n)
    for i in range(n):
        if s[i] > level:
            out[i] = np.sign(a[i]) * level
        else:
            out[i] = a[i]
    return out


def prox_ref(h, name, a, lam):
    """Proximal map of lam[t] * pen(name, .) for each matrix of the batch."""
    out = np.zeros(a.shape)
    for t in range(a.shape[0]):
        l = lam[t]
        if name == "laplacian":
            out[t] = a[t] / (1 + 2 * l)
        elif name == "l1":
            out[t] = prox_l1(a[t], l)
        elif name == "l2":
            out[t] = group_ref(a[t], l)
        else:
            for j in range(a.shape[2]):
                out[t, :, j] = linf_ref(h, a[t, :, j], l)
    return out


def lam_of(h, kind, n):
    if kind == "scalar":
        l = h.nonneg("lam")
        return l, [l] * n
    l = h.array("lam", (n, 1, 1), nonneg=True)
    return l, [l[t, 0, 0] for t in range(n)]


def norms(h, name, d):
    val = h.mod("regain.validation")
    norm, prox, node = val.check_norm_prox(name)
    x = h.array("x", (d, d))
    x0 = x.copy()
    h.equal(norm(x), pen(name, x0), "penalty value")
    h.equal(x, x0, "input unchanged")
    h.check(not node, "not a node penalty")


def proxes(h, name, n, d, lam):
    val = h.mod("regain.validation")
    norm, prox, node = val.check_norm_prox(name)
    a = h.array("a", (n, d, d))
    if name == "linf" and n > 1:
        a[:, :, 1:] = 0     # one symbolic column per matrix bounds the orderings to explore
    a0 = a.copy()
    l, per = lam_of(h, lam, n)
    out = prox(a, lamda=l)
    h.equal(a, a0, "input unchanged")
    h.equal(out, prox_ref(h, name, a0, per), "proximal map")


def optimal(h, name, d):
    """The selected proximal map minimises weight*penalty + squared distance / 2 (any competitor)."""
    val = h.mod("regain.validation")
    norm, prox, node = val.check_norm_prox(name)
    a = h.array("a", (1, d, d))
    y = h.array("y", (d, d))
    l = h.pos("lam")
    x = prox(a, lamda=l)[0]
    fx = l * norm(x) + ((x - a[0]) ** 2).sum() / 2
    fy = l * norm(y) + ((y - a[0]) ** 2).sum() / 2
    h.leq(fx, fy, "not beaten by any competitor")


def vector_norms(h, fn, shape):
    nm = h.mod("regain.norm")
    x = h.array("x", shape)
    x0 = x.copy()
    if fn == "l1_norm":
        h.equal(nm.l1_norm(x), np.abs(x0).sum(), "value")
    elif fn == "l1_od_norm":
        out = nm.l1_od_norm(x)
        d = shape[-1]
        ref = np.zeros(shape[:-2]) if len(shape) > 2 else 0
        for i in range(d):
            for j in range(d):
                if i != j:
                    ref = ref + np.abs(x0[..., i, j])
        h.equal(out, ref, "value")
    elif fn in ("vector_1", "vector_2"):
        # sum over entries of the p-norm of the entry's course over the first axis
        p = int(fn[-1])
        out = nm.vector_p_norm(x, p)
        tot = 0
        for ix in np.ndindex(*shape[1:]):
            c = x0[(slice(None),) + ix]
            tot = tot + (np.abs(c).sum() if p == 1 else np.sqrt((c * c).sum()))
        h.equal(out, tot, "value")
    h.equal(x, x0, "input unchanged")


def names(h, name):
    val = h.mod("regain.validation")
    if name == "node":
        norm, px, node = val.check_norm_prox(name)
        h.check(bool(node), "flagged as node penalty")
        out = px(np.zeros((1, 4, 2)), lamda=1.0, max_iter=1)
        h.check(len(out) == 2 and out[0].shape == (1, 2, 2) and out[1].shape == (1, 2, 2), "maps pairs to pairs")
    else:
        h.raises(ValueError, lambda: val.check_norm_prox(name), "unknown name is rejected")
    h.real("unused")


def tasks(T, tier):
    for name in NAMES:
        for d in (1, 2, 3):
            yield T("norms", dict(name=name, d=d))
        for n, d, lam in ((1, 1, "scalar"), (1, 2, "scalar"), (2, 2, "scalar"), (1, 2, "batch"), (2, 2, "batch")):
            yield T("proxes", dict(name=name, n=n, d=d, lam=lam))
        yield T("optimal", dict(name=name, d=1))
        if name == "laplacian":
            yield T("optimal", dict(name=name, d=2))
    for fn in ("l1_norm", "l1_od_norm", "vector_1", "vector_2"):
        for shape in ((2, 2), (3, 3), (2, 2, 2)):
            yield T("vector_norms", dict(fn=fn, shape=shape))
    for name in ("node", "", "L1", "l3", "laplace", "l2 ", None):
        yield T("names", dict(name=name), samples=2)
