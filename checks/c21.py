"""C21: structure scores."""
import numpy as np

BOUNDS = ("true and predicted matrices of size 2x2 (all entries arbitrary reals), 3x3 (symmetric or with a constant diagonal), "
          "batches of two or three 2x2 matrices and of one 3x3; any threshold >= 0; with and without the diagonal")
ASSUMPTIONS = ["sklearn's matthews_corrcoef and average_precision_score follow their documented formulas "
               "(0 where undefined)"]


def count(h, pairs):
    tp = tn = fp = fn = 0
    for t, p in pairs:
        if t:
            if p:
                tp += 1
            else:
                fn += 1
        elif p:
            fp += 1
        else:
            tn += 1
    return tp, tn, fp, fn


def edge(x, eps=None):
    """An entry is an edge when it is not zero (after removing entries below the threshold)."""
    if eps is not None:
        if np.abs(x) < eps:
            return False
    return bool(x != 0)


def entry(h, name):
    """An arbitrary entry: zero or a nonzero real (one path each)."""
    x = h.real(name)
    return x if x != 0 else h.lit(0)


def error(h, shape, thr=False, no_diagonal=False, sym=False, rest=1):
    u = h.mod("regain.utils")
    if sym:
        d = shape[-1]
        true, pred = np.zeros(shape), np.zeros(shape)
        for m, nm in ((true, "t"), (pred, "p")):
            for b in range(1 if len(shape) == 2 else shape[0]):
                v = m if len(shape) == 2 else m[b]
                for i in range(d):
                    v[i, i] = rest
                    for j in range(i):
                        v[i, j] = v[j, i] = entry(h, "%s%d_%d_%d" % (nm, b, i, j))
    else:
        true, pred = np.zeros(shape), np.zeros(shape)
        for ix in np.ndindex(*shape):
            true[ix] = entry(h, "t_%d_%d" % ix)
            pred[ix] = entry(h, "p_%d_%d" % ix)
    t0, p0 = true.copy(), pred.copy()
    kw = {}
    eps = None
    if thr:
        kw = dict(thresholding=True, eps=h.nonneg("eps"))
        eps = kw["eps"]
    h.use_known()
    status = {}
    for ix in np.ndindex(*shape):
        status[ix] = (edge(t0[ix]), edge(p0[ix], eps))
    r = u.structure_error(true, pred, no_diagonal=no_diagonal, **kw)
    h.equal(true, t0, "true matrix unchanged")
    h.equal(pred, p0, "predicted matrix unchanged")
    pairs, upper, scores = [], [], []
    for ix in np.ndindex(*shape):
        off = ix[-1] != ix[-2]
        if no_diagonal and not off:
            continue
        e = status[ix]
        pairs.append(e)
        if ix[-1] > ix[-2]:
            upper.append(e)
    tp, tn, fp, fn = count(h, pairs)
    n = len(pairs)
    for k, v in (("tp", tp), ("tn", tn), ("fp", fp), ("fn", fn)):
        h.equal(r[k], v, k)
    for k, a, b in (("precision", tp, tp + fp), ("recall", tp, tp + fn), ("accuracy", tp + tn, n),
                    ("prevalence", tp + fn, n), ("miss_rate", fn, tp + fn), ("fall_out", fp, fp + tn),
                    ("specificity", tn, fp + tn), ("fdr", fp, tp + fp), ("false_omission_rate", fn, fn + tn),
                    ("npv", tn, fn + tn), ("f1", 2 * tp, 2 * tp + fp + fn)):
        if b > 0:
            h.equal(r[k], h.lit(a) / b, k)
        h.finite(r[k], k + " is finite")
    if tp + fn > 0 and fp + tn > 0:
        rec, fo, sp, mi = h.lit(tp) / (tp + fn), h.lit(fp) / (fp + tn), h.lit(tn) / (fp + tn), h.lit(fn) / (tp + fn)
        h.equal(r["balanced_accuracy"], (rec + sp) / 2, "balanced accuracy")
        if fp > 0:
            h.equal(r["plr"], rec / fo, "positive likelihood ratio")
        if tn > 0:
            h.equal(r["nlr"], mi / sp, "negative likelihood ratio")
        if fp > 0 and fn > 0 and tn > 0:
            h.equal(r["dor"], h.lit(tp * tn) / (fp * fn), "diagnostic odds ratio")
    for k in ("balanced_accuracy", "plr", "nlr", "dor", "mcc"):
        h.finite(r[k], k + " is finite")
    a, b, c, d = count(h, upper)
    den = (a + c) * (a + d) * (b + c) * (b + d)
    h.equal(r["mcc"], (h.lit(a * b - c * d) / np.sqrt(h.lit(den))) if den > 0 else 0, "MCC over the upper triangle")


def ranking(h):
    """Average precision ranks the edges by absolute predicted value (true edges: nonzero entries)."""
    u = h.mod("regain.utils")
    true, pred = np.zeros((3, 3)), np.zeros((3, 3))
    vals = []
    for i in range(3):
        for j in range(i):
            true[i, j] = true[j, i] = entry(h, "t_%d_%d" % (i, j))
            pred[i, j] = pred[j, i] = entry(h, "p_%d_%d" % (i, j))
            vals.append((true[i, j], np.abs(pred[i, j])))
    h.use_known()
    r = u.structure_error(true, pred)
    tot = 0
    for t, s in vals:
        tot += 1 if t != 0 else 0
    if tot == 0:
        return
    ap = 0
    for t, s in vals:
        if t != 0:
            # precision at this level
            tp = n = 0
            for t2, s2 in vals:
                if s2 >= s:
                    n += 1
                    tp += 1 if t2 != 0 else 0
            ap = ap + h.lit(tp) / n / tot
    h.equal(r["average_precision"], ap, "average precision")


def means(h):
    """mean_structure_error summarises every score of structure_error."""
    u = h.mod("regain.utils")
    h.real("unused")
    true = np.array([[1.0, 1.0, 0.0], [1.0, 1.0, 0.0], [0.0, 0.0, 1.0]])
    out = u.mean_structure_error(true, [np.eye(3), true])
    one = u.structure_error(true, np.eye(3), no_diagonal=True)
    h.check(set(out) == set(one), "one summary per score")


def tasks(T, tier):
    for nd in (False, True):
        for thr in (False, True):
            yield T("error", dict(shape=(2, 2), thr=thr, no_diagonal=nd, sym=True), paths=2500)
            for rest in (0, 1) if not nd else (1,):
                if not thr or tier == "thorough":
                    yield T("error", dict(shape=(3, 3), thr=thr, no_diagonal=nd, sym=True, rest=rest), paths=5000, budget=500)
                yield T("error", dict(shape=(2, 2, 2), thr=thr, no_diagonal=nd, sym=True, rest=rest), paths=2500)
        for shape in ((3, 2, 2), (1, 3, 3)):
            yield T("error", dict(shape=shape, no_diagonal=nd, sym=True, rest=1), paths=5000, budget=500)
        yield T("error", dict(shape=(2, 2), no_diagonal=nd), paths=2500, budget=500)
    yield T("ranking", dict(), paths=2500)
    yield T("means", dict(), samples=1)
