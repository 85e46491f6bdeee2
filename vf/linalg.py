"""Symbolic counterparts of numpy.linalg / scipy.linalg functions.

inv/det/solve/cholesky/norm/slogdet are exact closed forms (small sizes); spectral
functions are contract stubs (functions of the lower triangle, with an orthonormal
basis in exact trigonometric parametrisation for 2x2 and 3x3).
"""
import math
from fractions import Fraction

import numpy as np

from . import sym as S
from .arr import SymArray, base, dot, fin, fsum, has_sym, lift_any, matmul, mkarray, reduce_, wrap, zeros, _num, _uf
from .sym import Sym, Unsupported


class LinAlgError(np.linalg.LinAlgError):
    pass


def norm(x, ord=None, axis=None, keepdims=False):
    b = base(x)
    if axis is None:
        if ord is None or (b.ndim == 2 and ord in ("fro",)) or (b.ndim == 1 and ord == 2):
            v = fsum([_num(e) * _num(e) for e in b.flat])
            r = S.ssqrt(v)
            if keepdims:
                o = np.empty((1,) * b.ndim, dtype=object)
                o[...] = r
                return wrap(o)
            return r
        axis = tuple(range(b.ndim))
    if isinstance(axis, (int, np.integer)):
        axis = (int(axis),)
    axis = tuple(a % b.ndim for a in axis)
    if len(axis) == 1:
        ab = _uf("absolute")(b) if b.size else b
        if ord is None or ord == 2:
            s = reduce_("add", _uf("multiply")(b, b), axis[0], keepdims)
            return fin(np.asarray(np.frompyfunc(S.ssqrt, 1, 1)(s), dtype=object))
        if ord == 1:
            return fin(reduce_("add", ab, axis[0], keepdims))
        if ord == np.inf:
            return fin(reduce_("maximum", ab, axis[0], keepdims))
        if ord == -np.inf:
            return fin(reduce_("minimum", ab, axis[0], keepdims))
        if ord == 0:
            return fin(reduce_("add", np.frompyfunc(lambda e: Sym.of(_num(e) != 0), 1, 1)(b), axis[0], keepdims))
        raise Unsupported("vector norm ord=%r" % (ord,))
    if len(axis) == 2:
        ab = _uf("absolute")(b)
        r, c = axis
        if ord is None or ord in ("fro", "f"):
            s = reduce_("add", _uf("multiply")(b, b), axis, keepdims)
            return fin(np.asarray(np.frompyfunc(S.ssqrt, 1, 1)(s), dtype=object))
        if ord == 1 or ord == np.inf:
            a1, a2 = (r, c) if ord == 1 else (c, r)
            s = reduce_("add", ab, a1, True)
            s = reduce_("maximum", s, a2, True)
            return fin(s) if keepdims else fin(np.squeeze(s, axis=axis))
        if ord == 2 and b.ndim == 2:
            return spectral_norm(b)
        if ord == "nuc" and b.ndim == 2 and is_symmetric(b):
            es, _ = eigh(b)
            return fsum([abs(e) for e in es])
        if ord == "nuc" and b.ndim > 2 and axis == (b.ndim - 2, b.ndim - 1) and not keepdims:
            o = np.empty(b.shape[:-2], dtype=object)
            for ix in np.ndindex(*b.shape[:-2]):
                o[ix] = norm(b[ix], "nuc", (0, 1))
            return fin(o)
        raise Unsupported("matrix norm ord=%r" % (ord,))
    if ord is None:
        s = reduce_("add", _uf("multiply")(b, b), axis, keepdims)
        return fin(np.asarray(np.frompyfunc(S.ssqrt, 1, 1)(s), dtype=object))
    raise ValueError("Improper number of dimensions to norm.")


def is_symmetric(b):
    n = b.shape[-1]
    return b.shape[-2] == n and all((_num(b[ix + (i, j)]) - _num(b[ix + (j, i)])).p == {}
                                    for ix in np.ndindex(b.shape[:-2]) for i in range(n) for j in range(i))


def spectral_norm(b):
    if b.shape == (2, 2):
        return svdvals(b)[0]
    if is_symmetric(b):
        es, _ = eigh(b)
        r = abs(_num(es[0]))
        for e in list(es)[1:]:
            r = S.smax(r, abs(_num(e)))
        return r
    g = matmul(b.T, b)
    es, _ = eigh(g)
    return S.ssqrt(es[-1])


def _det(b):
    n = b.shape[0]
    if n == 0:
        return Sym.of(1)
    if n == 1:
        return _num(b[0, 0])
    if n > 4:
        vals = [_num(e) for e in b.flat]
        if not all(v.isconst() for v in vals):
            raise Unsupported("det of size %d" % n)
    acc = []
    for j in range(n):
        if not _num(b[0, j]).p:
            continue
        minor = np.delete(np.delete(b, 0, 0), j, 1)
        acc.append(_num(b[0, j]) * _det(minor) * (1 if j % 2 == 0 else -1))
    return fsum(acc)


def det(a):
    b = base(a)
    out = np.empty(b.shape[:-2], dtype=object)
    for ix in np.ndindex(out.shape):
        out[ix] = _det(b[ix])
    return fin(out)


def _const_inv(b):
    n = b.shape[0]
    M = [[b[i, j].const() for j in range(n)] + [Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    for c in range(n):
        piv = next((r for r in range(c, n) if M[r][c] != 0), None)
        if piv is None:
            raise LinAlgError("Singular matrix")
        M[c], M[piv] = M[piv], M[c]
        f = M[c][c]
        M[c] = [x / f for x in M[c]]
        for r in range(n):
            if r != c and M[r][c]:
                g = M[r][c]
                M[r] = [x - g * y for x, y in zip(M[r], M[c])]
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[i, j] = Sym(S.const(M[i][n + j]))
    return out


def _inv(b):
    n = b.shape[0]
    if b.shape[0] != b.shape[1]:
        raise LinAlgError("Last 2 dimensions of the array must be square")
    b = np.frompyfunc(_num, 1, 1)(b) if b.size else b
    if all(e.isconst() for e in b.flat):
        return _const_inv(b)
    # diagonal matrices
    if all(not b[i, j].p for i in range(n) for j in range(n) if i != j):
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                out[i, j] = Sym.of(1) / b[i, i] if i == j else Sym({})
        return out
    if n > 3:
        raise Unsupported("symbolic inverse of size %d" % n)
    d = _det(b)
    if not d.p:
        raise LinAlgError("Singular matrix")
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(b, j, 0), i, 1)
            out[i, j] = _det(minor) * (1 if (i + j) % 2 == 0 else -1) / d
    return out


def inv(a, **k):
    b = base(a)
    if b.ndim < 2:
        raise LinAlgError("%d-dimensional array given. Array must be at least two-dimensional" % b.ndim)
    out = np.empty(b.shape, dtype=object)
    for ix in np.ndindex(b.shape[:-2]):
        out[ix] = _inv(b[ix])
    return wrap(out)


def solve(a, b, **k):
    return dot(inv(a), b) if base(a).ndim == 2 else matmul(inv(a), b)


def lstsq(a, b, rcond=None, **k):
    """Least squares of a square non-singular system (its unique solution)."""
    A, B = base(a), base(b)
    if A.ndim != 2 or A.shape[0] != A.shape[1] or B.ndim > 2 or B.shape[0] != A.shape[0]:
        raise Unsupported("least squares of a non-square system")
    n = A.shape[0]
    low = all(not _num(A[i, j]).p for i in range(n) for j in range(i + 1, n))
    up = all(not _num(A[i, j]).p for i in range(n) for j in range(i))
    if low or up:
        D = Sym.of(1)
        for i in range(n):
            D = D * _num(A[i, i])
        D = D * D
    else:
        D = _det(np.frompyfunc(_num, 1, 1)(A))
    if not bool(D != 0):
        raise Unsupported("least squares of a singular system")
    if not (low or up):
        x = solve(a, b)
    else:                   # substitution
        X = np.empty(B.shape, dtype=object)
        for i in (range(n) if low else reversed(range(n))):
            r = B[i]
            for j in (range(i) if low else range(i + 1, n)):
                r = r - A[i, j] * X[j]
            X[i] = r / A[i, i]
        x = wrap(X)
    return x, wrap(np.empty(0, dtype=object)), n, None


def slogdet(a):
    d = base(det(a))
    sg = np.frompyfunc(lambda e: S.ssign(_num(e)), 1, 1)(d)
    ld = np.frompyfunc(_logabs, 1, 1)(d)
    return fin(np.asarray(sg, dtype=object)), fin(np.asarray(ld, dtype=object))


def _logabs(e):
    e = _num(e)
    if e.isconst():
        c = e.const()
        return float("-inf") if c == 0 else S.slog(Sym(S.const(abs(c))))
    s = S.known_sign(e.p)
    if s in (1, -1):
        return S.slog(e if s == 1 else -e)
    mono, rest = S._common(e.p)
    if mono is not None:
        return S.slog(mono) + _logabs(Sym(rest))
    c, q = S.content(e.p)
    return S._log_const(abs(c)) + S.sfn("logabs", Sym(q))


def fast_logdet(a):
    """sklearn's fast_logdet: log det if det > 0, else -inf (no fork: INF is opaque)."""
    d = _num(det(a))
    return S.site(d > 0, _logabs(d), float("-inf"))


def logdet_pos(d):
    """log of a determinant known positive on this path (same normal form as _logabs)."""
    return _logabs(d)


def cholesky(a, lower=None, **k):
    """Lower factor, from the leading minors."""
    b = base(a)
    out = np.empty(b.shape, dtype=object)
    n = b.shape[-1]
    if n > 4:
        raise Unsupported("symbolic Cholesky factor of size %d" % n)
    for ix in np.ndindex(b.shape[:-2]):
        m = np.frompyfunc(_num, 1, 1)(b[ix]) if n else b[ix]
        L = np.empty((n, n), dtype=object)
        root = [Sym.of(1)]
        for j in range(n):
            for i in range(j):
                L[i, j] = Sym({})
            M = _det(np.asarray([[m[max(r, c), min(r, c)] for c in range(j + 1)] for r in range(j + 1)], dtype=object)
                     .reshape(j + 1, j + 1))
            if not bool(M > 0):
                raise LinAlgError("Matrix is not positive definite")
            root.append(S.ssqrt(M))
            L[j, j] = root[j + 1] / root[j]
            for i in range(j + 1, n):
                rows = list(range(j)) + [i]
                N = _det(np.asarray([[m[max(r, c), min(r, c)] for c in range(j + 1)] for r in rows], dtype=object)
                         .reshape(j + 1, j + 1))
                L[i, j] = N / (root[j] * root[j + 1])
        out[ix] = L
    return wrap(out)


def sp_cholesky(a, lower=False, **k):
    L = cholesky(a)
    return L if lower else L.T


# -- spectral contract stubs ------------------------------------------------
def _lower(b, lower=True):
    n = b.shape[0]
    return [_num(b[i, j] if lower else b[j, i]) for i in range(n) for j in range(i + 1)]


def _eigh_numeric(vals, n):
    a = np.zeros((n, n))
    k = 0
    for i in range(n):
        for j in range(i + 1):
            a[i, j] = a[j, i] = vals[k]
            k += 1
    es, Q = np.linalg.eigh(a)
    return es, Q


def eigh(a, UPLO="L", **k):
    b = base(a)
    n = b.shape[-1]
    if b.shape[-2] != n:
        raise LinAlgError("Last 2 dimensions of the array must be square")
    es = np.empty(b.shape[:-1], dtype=object)
    Q = np.empty(b.shape, dtype=object)
    for ix in np.ndindex(b.shape[:-2]):
        e, q = _eigh1(b[ix], UPLO == "L")
        es[ix] = e
        Q[ix] = q
    return wrap(es), wrap(Q)


def _eigh1(m, lower=True):
    n = m.shape[0]
    args = _lower(m, lower)
    es = np.empty(n, dtype=object)
    Q = np.empty((n, n), dtype=object)
    # diagonal matrices with a known order need no stub only in the constant case
    if all(v.isconst() for v in args):
        M = np.array([float(v.const()) for v in args])
        A = np.zeros((n, n))
        k = 0
        for i in range(n):
            for j in range(i + 1):
                A[i, j] = A[j, i] = M[k]
                k += 1
        off = [A[i, j] for i in range(n) for j in range(i)]
        if not any(off):
            order = sorted(range(n), key=lambda i: A[i, i])
            for c, i in enumerate(order):
                es[c] = Sym(S.const(A[i, i]))
                for r in range(n):
                    Q[r, c] = Sym(S.const(int(r == i)))
            return es, Q
    cx = S.ctx()
    if n == 1:
        es[0] = args[0]
        Q[0, 0] = Sym.of(1)
        return es, Q
    if n == 2:
        outs = cx.uf("eigh2", args, 5, _num_eigh2, setup=_setup_eigh2)
        l1, l2, c, s, e = outs
        es[0], es[1] = l1, l2
        Q[0, 0], Q[1, 0], Q[0, 1], Q[1, 1] = c, s, -s * e, c * e
        cx.axiom_lazy("eigh", (args, es, Q))
        return es, Q
    if n == 3:
        outs = cx.uf("eigh3", args, 9, _num_eigh3, setup=_setup_eigh3)
        es[0], es[1], es[2] = outs[:3]
        c1, s1, c2, s2, c3, s3 = outs[3:]
        # Rz(1) Ry(2) Rx(3); Q D Q' does not depend on the signs of the columns
        Q[0, 0], Q[0, 1], Q[0, 2] = c1 * c2, c1 * s2 * s3 - s1 * c3, c1 * s2 * c3 + s1 * s3
        Q[1, 0], Q[1, 1], Q[1, 2] = s1 * c2, s1 * s2 * s3 + c1 * c3, s1 * s2 * c3 - c1 * s3
        Q[2, 0], Q[2, 1], Q[2, 2] = -s2, c2 * s3, c2 * c3
        cx.axiom_lazy("eigh", (args, es, Q))
        return es, Q
    raise Unsupported("eigh of size %d" % n)


def _setup_eigh2(atoms):
    l1, l2, c, s, e = atoms
    one = {S.ONE: 1}
    if s.sq is None:
        s.sq = S.psub(one, S.pmul({((c.id, 1),): 1}, {((c.id, 1),): 1}))
        e.sq = one


def _setup_eigh3(atoms):
    one = {S.ONE: 1}
    for c, s in ((atoms[3], atoms[4]), (atoms[5], atoms[6]), (atoms[7], atoms[8])):
        if s.sq is None:
            s.sq = S.psub(one, S.pmul({((c.id, 1),): 1}, {((c.id, 1),): 1}))


def _num_eigh2(vals):
    es, Q = _eigh_numeric(vals, 2)
    c, s = Q[0, 0], Q[1, 0]
    e = 1.0 if (Q[1, 1] * c - Q[0, 1] * s) > 0 else -1.0
    return [es[0], es[1], c, s, e]


def _num_eigh3(vals):
    es, Q = _eigh_numeric(vals, 3)
    if np.linalg.det(Q) < 0:
        Q = Q * np.array([1, 1, -1.0])
    s2 = -Q[2, 0]
    c2 = math.sqrt(max(0.0, 1 - s2 * s2))
    if c2 < 1e-12:
        c1, s1 = 1.0, 0.0
        c3, s3 = Q[1, 1], -Q[1, 2]
    else:
        c1, s1 = Q[0, 0] / c2, Q[1, 0] / c2
        s3, c3 = Q[2, 1] / c2, Q[2, 2] / c2
    return [es[0], es[1], es[2], c1, s1, c2, s2, c3, s3]


def eigvalsh(a, UPLO="L", **k):
    b = base(a)
    if b.shape == (2, 2) and not all(_num(e).isconst() for e in b.flat):
        lo = _num(b[1, 0] if UPLO == "L" else b[0, 1])
        p, q = _num(b[0, 0]), _num(b[1, 1])
        r = S.ssqrt((p - q) * (p - q) + 4 * lo * lo)
        return wrap(np.array([(p + q - r) / 2, (p + q + r) / 2, None], dtype=object)[:-1])
    return eigh(a, UPLO)[0]


def eigvals(a, **k):
    b = base(a)
    if b.ndim == 2 and is_symmetric(b):
        return eigh(b)[0]
    raise Unsupported("eigvals of a non-symmetric matrix")


def pinvh(a, **k):
    """Moore-Penrose inverse of a symmetric matrix: opaque symmetric function of the
    lower triangle (scipy uses eigh on it); exact when the matrix is constant or diagonal."""
    b = base(a)
    n = b.shape[0]
    args = _lower(b)
    if all(v.isconst() for v in args):
        try:
            m = np.empty((n, n), dtype=object)
            k_ = 0
            for i in range(n):
                for j in range(i + 1):
                    m[i, j] = m[j, i] = args[k_]
                    k_ += 1
            if all(not v.p for v in args):
                return zeros((n, n))
            return wrap(_const_inv(m))
        except LinAlgError:
            pass
    if getattr(S.ctx(), "exact_inverse", False) and n <= 3:
        m = np.empty((n, n), dtype=object)
        k_ = 0
        for i in range(n):
            for j in range(i + 1):
                m[i, j] = m[j, i] = args[k_]
                k_ += 1
        if bool(Sym.of(det(m)) != 0):
            return inv(m)
    outs = S.ctx().uf("pinvh%d" % n, args, n * (n + 1) // 2, lambda v: _num_pinvh(v, n))
    out = np.empty((n, n), dtype=object)
    k_ = 0
    for i in range(n):
        for j in range(i + 1):
            out[i, j] = out[j, i] = outs[k_]
            k_ += 1
    return wrap(out)


def _num_pinvh(vals, n):
    import scipy.linalg
    a = np.zeros((n, n))
    k = 0
    for i in range(n):
        for j in range(i + 1):
            a[i, j] = a[j, i] = vals[k]
            k += 1
    p = scipy.linalg.pinvh(a)
    return [p[i, j] for i in range(n) for j in range(i + 1)]


def pinv(a, **k):
    b = base(a)
    m, n = b.shape
    if 0 in (m, n):
        return zeros((n, m))
    args = [_num(e) for e in b.flat]
    if m == n and m <= 3 and bool(Sym.of(det(b)) != 0):
        return inv(b)           # the pseudo-inverse of an invertible matrix is its inverse
    outs = S.ctx().uf("pinv%dx%d" % (m, n), args, m * n,
                      lambda v: list(np.linalg.pinv(np.array(v).reshape(m, n)).flat))
    return wrap(np.array(outs + [None], dtype=object)[:-1].reshape(n, m))


def svdvals(a):
    b = base(a)
    m, n = b.shape
    r = min(m, n)
    args = [_num(e) for e in b.flat]
    if (m, n) == (2, 2) and not all(e.isconst() for e in args):
        # closed forms (the symmetric one avoids a nested root)
        det = args[0] * args[3] - args[1] * args[2]
        if is_symmetric(b):
            tr = args[0] + args[3]
            r = S.ssqrt(tr * tr - 4 * det)
            t = S.sabs(tr)
            top = (t + r) / 2
        else:
            q = fsum([e * e for e in args])
            top = S.ssqrt((q + S.ssqrt(q * q - 4 * det * det)) / 2)
        # the smaller one: below the first by an opaque nonnegative gap
        def gapset(atoms):
            atoms[0].nonneg = True
        gap = S.ctx().uf("svgap", args, 1, lambda v: [float(-np.diff(np.linalg.svd(np.array(v).reshape(2, 2),
                                                                                   compute_uv=False))[0])], setup=gapset)[0]
        return wrap(np.array([top, top - gap, None], dtype=object)[:-1])

    def setup(atoms):
        for x in atoms:
            x.nonneg = True
    outs = S.ctx().uf("svdvals%dx%d" % (m, n), args, r,
                      lambda v: list(np.linalg.svd(np.array(v).reshape(m, n), compute_uv=False)), setup=setup)
    return wrap(np.array(list(outs) + [None], dtype=object)[:-1])


def svd(a, full_matrices=True, compute_uv=True, **k):
    if not compute_uv:
        return svdvals(a)
    raise Unsupported("svd")


def multi_dot(arrs):
    r = arrs[0]
    for x in arrs[1:]:
        r = dot(r, x)
    return r


def matrix_power(a, n):
    r = mkarray(np.eye(base(a).shape[0]))
    for _ in range(n):
        r = matmul(r, a)
    return r


def matrix_rank(a, *r, **k):
    b = base(a)
    n, m = b.shape
    args = [_num(e) for e in b.flat]
    outs = S.ctx().uf("rank%dx%d" % (n, m), args, 1,
                      lambda v: [float(np.linalg.matrix_rank(np.array(v).reshape(n, m)))])
    return outs[0]


def cho_factor(a, lower=False, **k):
    return (cholesky(a), True)


def cho_solve(cl, b, **k):
    L = cl[0]
    return dot(inv(dot(L, L.T)), b)


def solve_triangular(a, b, trans=0, lower=False, **k):
    from .arr import tril, triu
    m = tril(a) if lower else triu(a)
    if trans in (1, "T"):
        m = m.T
    return dot(inv(m), b)


def block_diag(*arrs):
    arrs = [base(np.atleast_2d(a) if not isinstance(a, np.ndarray) else a) for a in arrs]
    n = sum(a.shape[0] for a in arrs)
    m = sum(a.shape[1] for a in arrs)
    r = zeros((n, m))
    i = j = 0
    for a in arrs:
        r[i:i + a.shape[0], j:j + a.shape[1]] = a
        i += a.shape[0]
        j += a.shape[1]
    return r


def toeplitz(c, r=None):
    c = base(c).ravel()
    r = c if r is None else base(r).ravel()
    out = zeros((len(c), len(r)))
    for i in range(len(c)):
        for j in range(len(r)):
            out[i, j] = c[i - j] if i >= j else r[j - i]
    return out


OVERRIDES = dict(norm=norm, det=det, inv=inv, solve=solve, lstsq=lstsq, slogdet=slogdet, cholesky=cholesky, eigh=eigh,
                 eigvalsh=eigvalsh, eigvals=eigvals, pinv=pinv, svd=svd, multi_dot=multi_dot,
                 matrix_power=matrix_power, matrix_rank=matrix_rank)
SP_OVERRIDES = dict(OVERRIDES, pinvh=pinvh, svdvals=svdvals, cholesky=sp_cholesky, cho_factor=cho_factor,
                    cho_solve=cho_solve, solve_triangular=solve_triangular, block_diag=block_diag,
                    toeplitz=toeplitz)
del SP_OVERRIDES["lstsq"], SP_OVERRIDES["multi_dot"], SP_OVERRIDES["matrix_power"], SP_OVERRIDES["matrix_rank"], SP_OVERRIDES["slogdet"]


def _install():
    from .arr import HANDLED
    for n, f in OVERRIDES.items():
        HANDLED[getattr(np.linalg, n)] = f


_install()
