"""Symbolic numpy: an object-dtype ndarray subclass plus a numpy look-alike module.

Only the element arithmetic is replaced; shapes, views, broadcasting, aliasing and
in-place semantics are numpy's own.
"""
import builtins
import itertools
import math
import numbers
import types
from fractions import Fraction

import numpy as np

from . import sym as S
from .sym import Sym, SymBool, Unsupported, mkbool


def is_sym(x):
    return isinstance(x, (Sym, SymBool))


def lift_scalar(x):
    if isinstance(x, (Sym, SymBool, str, bytes)) or x is None:
        return x
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (complex, np.complexfloating)):
        raise Unsupported("complex")
    if isinstance(x, (float, np.floating)) and (math.isnan(x) or math.isinf(x)):
        return float(x)
    if isinstance(x, (int, float, np.integer, np.floating, Fraction)):
        return Sym(S.const(x))
    return x


_lift = np.frompyfunc(lift_scalar, 1, 1)


def wrap(x):
    """ndarray(object) -> SymArray ; everything else unchanged."""
    if isinstance(x, np.ndarray) and x.dtype == object and not isinstance(x, SymArray):
        return x.view(SymArray)
    return x


def base(x):
    """Object-dtype base ndarray view/copy of anything array-like."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x.view(np.ndarray)
        return np.asarray(_lift(x), dtype=object) if x.dtype.kind != "b" else x.astype(object)
    if is_sym(x):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (list, tuple)):
        return base(mkarray(x))
    a = np.empty((), dtype=object)
    a[()] = lift_scalar(x)
    return a


def _shape_of(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        subs = [_shape_of(y) for y in x]
        if not subs:
            return (0,)
        if any(s != subs[0] for s in subs):
            raise ValueError("setting an array element with a sequence. The requested array has an "
                             "inhomogeneous shape")
        return (len(x),) + subs[0]
    return ()


def has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, SymArray):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(is_sym(e) for e in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


def mkarray(x):
    """np.array for possibly symbolic nested sequences (always a copy)."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return np.array(x.view(np.ndarray), dtype=object).view(SymArray)
        if x.dtype.kind == "f":
            return np.asarray(_lift(x), dtype=object).reshape(x.shape).view(SymArray)
        return x.copy()
    if isinstance(x, types.GeneratorType) or isinstance(x, (map, zip, filter)):
        raise Unsupported("np.array of an iterator")
    if isinstance(x, (list, tuple, range)):
        x = list(x)
        if not has_sym(x):
            a = np.array(x)
            return mkarray(a) if a.dtype.kind == "f" else (a.view(SymArray) if a.dtype == object else a)
        shp = _shape_of(x)
        out = np.empty(shp, dtype=object)
        if len(shp) == 1:
            for i, y in enumerate(x):
                out[i] = lift_scalar(y)
        else:
            for i, y in enumerate(x):
                out[i] = base(y)
        return out.view(SymArray)
    a = np.empty((), dtype=object)
    a[()] = lift_scalar(x)
    if not is_sym(x) and not isinstance(x, (float, np.floating)):
        return np.array(x)
    return a.view(SymArray)


def all_concrete(a):
    return all(isinstance(e, (bool, np.bool_)) for e in a.flat)


def fin(r):
    """Finish a ufunc result."""
    if isinstance(r, np.ndarray) and r.dtype == object:
        if r.ndim == 0:
            return r[()]
        if r.size and all_concrete(r):
            return r.astype(bool)
        return r.view(SymArray)
    return r


class SymArray(np.ndarray):
    __array_priority__ = 1e5

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        h = HANDLED.get(func)
        if h is not None:
            return h(*args, **kwargs)
        r = func._implementation(*args, **kwargs)
        if isinstance(r, tuple):
            return tuple(wrap(x) for x in r)
        if isinstance(r, list):
            return [wrap(x) for x in r]
        return wrap(r)

    # -- indexing with symbolic masks
    def _idx(self, k):
        def one(i):
            if isinstance(i, SymBool):
                return bool(i)
            if isinstance(i, Sym):
                return i.__index__()
            if isinstance(i, np.ndarray) and i.dtype == object and i.size:
                e0 = i.flat[0]
                if isinstance(e0, (SymBool, bool, np.bool_)):
                    return np.array([bool(e) for e in i.flat], dtype=bool).reshape(i.shape)
                return np.array([int(e) for e in i.flat], dtype=int).reshape(i.shape)
            if isinstance(i, list) and has_sym(i):
                return one(mkarray(i))
            return i
        if isinstance(k, tuple):
            return tuple(one(i) for i in k)
        return one(k)

    def __getitem__(self, k):
        return wrap(np.ndarray.__getitem__(self, self._idx(k)))

    def __setitem__(self, k, v):
        if isinstance(k, np.ndarray) and k.dtype == object and k.shape == self.shape and k.size \
                and isinstance(k.flat[0], (SymBool, bool, np.bool_)) and np.ndim(v) == 0:
            vv = lift_scalar(v[()] if isinstance(v, np.ndarray) else v)
            b = self.view(np.ndarray)
            for ix in np.ndindex(self.shape):
                b[ix] = S.site(k[ix], vv, b[ix])
            return
        if isinstance(v, (list, tuple)):
            v = mkarray(v)
        if isinstance(v, np.ndarray):
            v = base(v)
            if v.ndim == 0:
                v = v[()]
        else:
            v = lift_scalar(v)
        k = self._idx(k)
        if isinstance(v, np.ndarray) and v.size == 1 and \
                isinstance(k if self.ndim == 1 else (k[0] if isinstance(k, tuple) and len(k) == 1 else None), (int, np.integer)) \
                and self.ndim == 1:
            v = v.reshape(-1)[0]        # a[0] = array([x]), as numpy does for numbers
        np.ndarray.__setitem__(self.view(np.ndarray), k, v)

    # -- methods numpy implements in C without dispatch
    def astype(self, dtype=None, *a, **k):
        dt = np.dtype(dtype) if dtype is not None and dtype is not object else np.dtype(object)
        if dt.kind == "f" or dt == object:
            return self.copy()
        if dt.kind == "b":
            return fin(np.frompyfunc(lambda e: e if isinstance(e, (bool, np.bool_, SymBool)) else Sym.of(e) != 0, 1, 1)(base(self)))
        if dt.kind == "i":
            b = base(self)
            if all(not is_sym(e) or isinstance(e, SymBool) or e.isconst() for e in b.flat):
                if all(not isinstance(e, SymBool) for e in b.flat):
                    return np.array([int(e) for e in b.flat], dtype=int).reshape(b.shape)
                return np.frompyfunc(lambda e: Sym.of(e), 1, 1)(b).view(SymArray)
            # truncation of a symbolic real: supported when it is an indicator sum
            return np.frompyfunc(_as_int, 1, 1)(b).view(SymArray)
        raise Unsupported("astype %r" % (dtype,))

    def dot(self, other, out=None):
        return dot(self, other)

    def filled(self, fill_value=None):
        """numpy.ma comparison results without masked entries (decides every entry)."""
        return as_concrete_mask(self) if self.dtype == object else self

    def tolist(self):
        return np.ndarray.tolist(self.view(np.ndarray))

    def item(self, *a):
        return np.ndarray.item(self, *a)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return dispatch(np.maximum, "reduce", (self,), dict(axis=axis, keepdims=keepdims))

    def min(self, axis=None, out=None, keepdims=False, **k):
        return dispatch(np.minimum, "reduce", (self,), dict(axis=axis, keepdims=keepdims))

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return dispatch(np.add, "reduce", (self,), dict(axis=axis, keepdims=keepdims))

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return dispatch(np.multiply, "reduce", (self,), dict(axis=axis, keepdims=keepdims))

    def any(self, axis=None, out=None, keepdims=False, **k):
        return dispatch(np.logical_or, "reduce", (self,), dict(axis=axis, keepdims=keepdims))

    def all(self, axis=None, out=None, keepdims=False, **k):
        return dispatch(np.logical_and, "reduce", (self,), dict(axis=axis, keepdims=keepdims))

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        n = self.size if axis is None else np.prod([self.shape[a] for a in (axis if isinstance(axis, tuple) else (axis,))])
        if n == 0:
            return float("nan")
        return self.sum(axis=axis, keepdims=keepdims) / int(n)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        m = self.mean(axis=axis, keepdims=True)
        n = self.size if axis is None else self.shape[axis]
        d = self - m
        return (d * d).sum(axis=axis, keepdims=keepdims) / (n - ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return np.sqrt(self.var(axis=axis, ddof=ddof, keepdims=keepdims))

    def argmax(self, axis=None, out=None):
        return _argext(self, axis, True)

    def argmin(self, axis=None, out=None):
        return _argext(self, axis, False)

    def clip(self, a_min=None, a_max=None, out=None):
        r = self
        if a_min is not None:
            r = np.maximum(r, a_min)
        if a_max is not None:
            r = np.minimum(r, a_max)
        return r

    def nonzero(self):
        m = np.frompyfunc(lambda e: bool(e if isinstance(e, (SymBool, bool, np.bool_)) else Sym.of(e) != 0), 1, 1)(base(self))
        return np.asarray(m, dtype=bool).reshape(self.shape).nonzero()

    def round(self, decimals=0, out=None):
        if all(not is_sym(e) or e.isconst() for e in self.flat):
            return self
        raise Unsupported("round")

    def argsort(self, axis=-1, kind=None, order=None):
        if self.ndim == 1:
            return np.array(_sorted_idx(list(self)), dtype=int)
        b = base(self)
        out = np.empty(self.shape, dtype=int)
        for ix in np.ndindex(self.shape[:-1]):
            out[ix] = _sorted_idx(list(b[ix]))
        return out

    def sort(self, axis=-1, kind=None, order=None):
        if axis not in (-1, self.ndim - 1):
            raise Unsupported("sort axis")
        b = base(self)
        for ix in np.ndindex(self.shape[:-1]):
            row = list(b[ix])
            b[ix] = np.array([row[i] for i in _sorted_idx(row)] + [None], dtype=object)[:-1]

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, x):
        return bool((self == x).any())

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. "
                             "Use a.any() or a.all()")
        return bool(self.flat[0])

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def __imatmul__(self, o):
        self[...] = matmul(self, o)
        return self

    def trace(self, offset=0, axis1=0, axis2=1, dtype=None, out=None):
        return np.diagonal(self, offset, axis1, axis2).sum(-1)


def _as_int(e):
    if isinstance(e, (bool, np.bool_)):
        return Sym(S.const(int(e)))
    e = Sym.of(e)
    if e.isconst():
        return Sym(S.const(int(e.const())))
    if all(all(S.ATOMS[i].kind == "ind" for i, _ in m) for m in e.p) and \
            all(c.denominator == 1 for c in e.p.values()):
        return e
    raise Unsupported("int conversion of a symbolic real")


def _argext(a, axis, mx):
    if axis is None:
        row = list(base(a).ravel())
        return _arg1(row, mx)
    b = np.moveaxis(base(a), axis, -1)
    out = np.empty(b.shape[:-1], dtype=int)
    for ix in np.ndindex(b.shape[:-1]):
        out[ix] = _arg1(list(b[ix]), mx)
    return out


def _arg1(row, mx):
    best = 0
    for i in range(1, len(row)):
        if bool(row[i] > row[best] if mx else row[i] < row[best]):
            best = i
    return best


def _sorted_idx(row):
    idx = []
    for i, v in enumerate(row):  # insertion sort, stable, forks on comparisons
        j = len(idx)
        while j > 0 and bool(v < row[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return idx


# --------------------------------------------------------------------------
# ufuncs
def _lb(f):
    return lambda a, b: mkbool(f(S.to_b(a), S.to_b(b)))


def _cmpf(op):
    def f(a, b):
        if isinstance(a, str) or isinstance(b, str):
            return {"==": a == b, "!=": a != b}[op]
        if not is_sym(a) and not is_sym(b):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        if isinstance(a, SymBool) and op in ("==", "!="):
            return (a == b) if op == "==" else (a != b)
        if isinstance(b, SymBool) and op in ("==", "!=") and isinstance(a, (bool, np.bool_, SymBool)):
            return (b == a) if op == "==" else (b != a)
        if not is_sym(a) or isinstance(a, SymBool):
            a = a if S._special(a) else Sym.of(a)
        if isinstance(b, SymBool):
            b = b.sym()
        if S._special(a):
            return {"<": b > a, "<=": b >= a, ">": b < a, ">=": b <= a, "==": b == a, "!=": b != a}[op]
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    return f


def _num(x):
    if isinstance(x, (SymBool,)):
        return x.sym()
    if is_sym(x) or S._special(x):
        return x
    return Sym.of(x)


def _ar(f):
    return lambda a, b: f(_num(a), _num(b))


def _un(f):
    return lambda a: f(_num(a))


def _mul(a, b):
    return a * b


def _sign(a):
    if S._special(a):
        return float(np.sign(a))
    return S.ssign(a)


def _isnan(a):
    return S._special(a) and math.isnan(a)


def _floor(a):
    if not S._special(a) and a.isconst():
        return Sym(S.const(math.floor(a.const())))
    raise Unsupported("floor")


def _logaddexp(a, b):
    return S.slog(S.sexp(a) + S.sexp(b))


PYF = {
    "add": (2, _ar(lambda a, b: a + b), 0),
    "subtract": (2, _ar(lambda a, b: a - b), None),
    "multiply": (2, _ar(_mul), 1),
    "true_divide": (2, _ar(lambda a, b: a / b), None),
    "divide": (2, _ar(lambda a, b: a / b), None),
    "power": (2, _ar(lambda a, b: S.spow(a, b)), None),
    "float_power": (2, _ar(lambda a, b: S.spow(a, b)), None),
    "maximum": (2, _ar(S.smax), None),
    "minimum": (2, _ar(S.smin), None),
    "fmax": (2, _ar(S.smax), None),
    "fmin": (2, _ar(S.smin), None),
    "floor_divide": (2, _ar(lambda a, b: a // b), None),
    "remainder": (2, _ar(lambda a, b: a % b), None),
    "logaddexp": (2, _ar(_logaddexp), None),
    "hypot": (2, _ar(lambda a, b: S.ssqrt(a * a + b * b)), None),
    "negative": (1, _un(lambda a: -a), None),
    "positive": (1, _un(lambda a: a), None),
    "absolute": (1, _un(lambda a: abs(a)), None),
    "fabs": (1, _un(lambda a: abs(a)), None),
    "conjugate": (1, _un(lambda a: a), None),
    "sign": (1, _un(_sign), None),
    "square": (1, _un(lambda a: a * a), None),
    "reciprocal": (1, _un(lambda a: 1 / a), None),
    "sqrt": (1, _un(S.ssqrt), None),
    "exp": (1, _un(S.sexp), None),
    "log": (1, _un(S.slog), None),
    "expm1": (1, _un(lambda a: S.sexp(a) - 1), None),
    "log1p": (1, _un(lambda a: S.slog(1 + a)), None),
    "log2": (1, _un(lambda a: S.slog(a) / S.slog(2)), None),
    "log10": (1, _un(lambda a: S.slog(a) / S.slog(10)), None),
    "tanh": (1, _un(lambda a: (S.sexp(2 * a) - 1) / (S.sexp(2 * a) + 1)), None),
    "sinh": (1, _un(lambda a: (S.sexp(a) - S.sexp(-a)) / 2), None),
    "cosh": (1, _un(lambda a: (S.sexp(a) + S.sexp(-a)) / 2), None),
    "sin": (1, _un(lambda a: S.sfn("sin", a) if not a.isconst() or a.const() else Sym({})), None),
    "cos": (1, _un(lambda a: S.sfn("cos", a) if not a.isconst() or a.const() else Sym(S.const(1))), None),
    "floor": (1, _un(_floor), None),
    "isnan": (1, _isnan, None),
    "isinf": (1, lambda a: S._special(a) and math.isinf(a), None),
    "isfinite": (1, lambda a: not S._special(a), None),
    "logical_not": (1, lambda a: mkbool(S.b_not(S.to_b(a))), None),
    "invert": (1, lambda a: mkbool(S.b_not(S.to_b(a))), None),
    "logical_and": (2, _lb(S.b_and), True),
    "logical_or": (2, _lb(S.b_or), False),
    "bitwise_and": (2, _lb(S.b_and), True),
    "bitwise_or": (2, _lb(S.b_or), False),
    "logical_xor": (2, _lb(lambda a, b: S.b_or(S.b_and(a, S.b_not(b)), S.b_and(S.b_not(a), b))), False),
    "bitwise_xor": (2, _lb(lambda a, b: S.b_or(S.b_and(a, S.b_not(b)), S.b_and(S.b_not(a), b))), False),
    "less": (2, _cmpf("<"), None),
    "less_equal": (2, _cmpf("<="), None),
    "greater": (2, _cmpf(">"), None),
    "greater_equal": (2, _cmpf(">="), None),
    "equal": (2, _cmpf("=="), None),
    "not_equal": (2, _cmpf("!="), None),
}
_UF = {}


def _uf(name):
    u = _UF.get(name)
    if u is None:
        nin, f, _ = PYF[name]
        u = np.frompyfunc(f, nin, 1)
        _UF[name] = u
    return u


def fsum(vals):
    """Sum of scalars, merging polynomials in one dictionary."""
    acc = {}
    spec = None
    for v in vals:
        v = _num(v)
        if S._special(v):
            spec = v if spec is None else spec + v
            continue
        for m, c in v.p.items():
            w = acc.get(m)
            if w is None:
                acc[m] = c
            else:
                w = w + c
                if w:
                    acc[m] = w
                else:
                    del acc[m]
    if spec is not None:
        return spec
    return Sym(acc)


def reduce_(name, a, axis=0, keepdims=False, initial=None):
    a = base(a)
    f = PYF[name][1]
    unit = PYF[name][2]
    if axis is None:
        axes = tuple(range(a.ndim))
    else:
        axes = tuple(x % a.ndim for x in (axis if isinstance(axis, tuple) else (axis,)))
    rest = [i for i in range(a.ndim) if i not in axes]
    b = a.transpose(rest + list(axes)).reshape([a.shape[i] for i in rest] + [-1]) if a.size else \
        np.empty([a.shape[i] for i in rest] + [0], dtype=object)
    out = np.empty(b.shape[:-1], dtype=object)
    for ix in np.ndindex(out.shape):
        vals = list(b[ix])
        if name == "add":
            r = fsum(vals) if vals else Sym({})
            if initial is not None:
                r = r + initial
        else:
            if initial is not None:
                r = lift_scalar(initial)
            elif vals:
                r, vals = vals[0], vals[1:]
                if unit is True or unit is False:
                    r = mkbool(S.to_b(r))
            else:
                if unit is None:
                    raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
                r = lift_scalar(unit)
            for v in vals:
                r = f(r, v)
        out[ix] = r
    if keepdims:
        out = out.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
    return out


def dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    kw = dict(kw)
    out = kw.pop("out", None)
    if isinstance(out, tuple):
        out = out[0]
    for k in ("dtype", "casting", "order", "subok"):
        kw.pop(k, None)
    if name == "matmul":
        r = matmul(*inputs)
        return _store(r, out)
    if name == "divmod":
        raise Unsupported("divmod")
    if name not in PYF:
        raise Unsupported("ufunc %s" % name)
    where = kw.pop("where", True)
    if where is not True:
        where = np.asarray(where) if not isinstance(where, SymArray) else where
    if method == "__call__":
        args = [base(x) for x in inputs]
        if where is not True:
            r = _uf(name)(*args)
            prev = base(out) if out is not None else np.frompyfunc(lambda *_: Sym({}), len(args), 1)(*args)
            r = np.frompyfunc(S.site, 3, 1)(base(where), r, prev)
        else:
            r = _uf(name)(*args)
        if not isinstance(r, np.ndarray):
            x = np.empty((), dtype=object)
            x[()] = r
            r = x
    elif method == "reduce":
        axis = kw.get("axis", 0) if len(inputs) < 2 else inputs[1]
        initial = kw.get("initial", None)
        if initial is np._NoValue:
            initial = None
        if where is not True:
            raise Unsupported("reduce where")
        r = reduce_(name, inputs[0], axis, kw.get("keepdims", False), initial)
    elif method == "accumulate":
        axis = kw.get("axis", 0) if len(inputs) < 2 else inputs[1]
        r = _uf(name).accumulate(base(inputs[0]), axis=axis)
    elif method == "outer":
        r = _uf(name).outer(base(inputs[0]), base(inputs[1]))
    elif method == "at":
        a = inputs[0]
        f = PYF[name][1]
        for i, v in zip(inputs[1], np.broadcast_to(base(inputs[2]), np.shape(inputs[1]))):
            a[i] = f(a[i], v)
        return None
    else:
        raise Unsupported("ufunc method %s" % method)
    return _store(r, out)


def _store(r, out):
    if out is None:
        return fin(r)
    if not isinstance(out, np.ndarray):
        raise Unsupported("out")
    if out.dtype != object:
        r = base(r)
        if all(not is_sym(e) or (isinstance(e, Sym) and e.isconst()) for e in r.flat):
            out[...] = np.array([float(e) for e in r.flat]).reshape(r.shape)
            return out
        raise Unsupported("symbolic value stored in a %s array" % out.dtype)
    out.view(np.ndarray)[...] = base(r)
    return out


def _dot1(u, v):
    return fsum([_num(a) * _num(b) for a, b in zip(u, v)])


def matmul(a, b):
    a, b = base(a), base(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    a1 = b1 = False
    if a.ndim == 1:
        a = a[None]
        a1 = True
    if b.ndim == 1:
        b = b[:, None]
        b1 = True
    if a.shape[-1] != b.shape[-2]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0, with gufunc "
                         "signature (n?,k),(k,m?)->(n?,m?) (size %d is different from %d)" % (b.shape[-2], a.shape[-1]))
    bs = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a = np.broadcast_to(a, bs + a.shape[-2:])
    b = np.broadcast_to(b, bs + b.shape[-2:])
    out = np.empty(bs + (a.shape[-2], b.shape[-1]), dtype=object)
    for ix in np.ndindex(bs):
        for i in range(a.shape[-2]):
            for j in range(b.shape[-1]):
                out[ix + (i, j)] = _dot1(a[ix + (i,)], b[ix][:, j])
    if a1:
        out = out[..., 0, :]
    if b1:
        out = out[..., 0]
    return fin(out)


def dot(a, b, out=None):
    a, b = base(a), base(b)
    if a.ndim == 0 or b.ndim == 0:
        return fin(_uf("multiply")(a, b)) if a.ndim or b.ndim else _num(a[()]) * _num(b[()])
    if b.ndim == 1:
        if a.shape[-1] != b.shape[0]:
            raise ValueError("shapes %s and %s not aligned" % (a.shape, b.shape))
        r = np.empty(a.shape[:-1], dtype=object)
        for ix in np.ndindex(r.shape):
            r[ix] = _dot1(a[ix], b)
        return fin(r)
    if a.ndim <= 2 and b.ndim == 2:
        return matmul(a, b)
    # general: sum over last axis of a and second-to-last of b
    r = np.empty(a.shape[:-1] + b.shape[:-2] + b.shape[-1:], dtype=object)
    for ia in np.ndindex(a.shape[:-1]):
        for ib in np.ndindex(b.shape[:-2]):
            for k in range(b.shape[-1]):
                r[ia + ib + (k,)] = _dot1(a[ia], b[ib][:, k])
    return fin(r)


# --------------------------------------------------------------------------
# function overrides (used through __array_function__ and through the np shim)
HANDLED = {}


def handles(*funcs):
    def deco(f):
        for g in funcs:
            HANDLED[g] = f
        return f
    return deco


HANDLED[np.dot] = dot
HANDLED[np.inner] = lambda a, b: dot(a, np.swapaxes(b, -1, -2) if np.ndim(b) > 1 else b)
HANDLED[np.vdot] = lambda a, b: dot(base(a).ravel(), base(b).ravel())


@handles(np.where)
def where_(c, x=None, y=None):
    if x is None:
        return as_concrete_mask(c).nonzero()
    return fin(np.frompyfunc(S.site, 3, 1)(base(c), base(x), base(y)))


def as_concrete_mask(c):
    c = base(c)
    return np.array([bool(e) if not isinstance(e, Sym) else bool(e != 0) for e in c.flat], dtype=bool).reshape(c.shape)


@handles(np.nonzero)
def nonzero(a):
    return as_concrete_mask(a).nonzero()


@handles(np.argwhere)
def argwhere(a):
    return np.argwhere(as_concrete_mask(a))


@handles(np.flatnonzero)
def flatnonzero(a):
    return np.flatnonzero(as_concrete_mask(a))


@handles(np.count_nonzero)
def count_nonzero(a, axis=None, keepdims=False):
    b = base(a)
    m = np.frompyfunc(lambda e: mkbool(S.to_b(e)), 1, 1)(b)
    return reduce_("add", m, axis, keepdims)[()] if axis is None else fin(reduce_("add", m, axis, keepdims))


@handles(np.sum)
def sum_(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    if where is not True:
        a = where_(where, a, 0)
    r = fin(reduce_("add", base(a), axis, bool(keepdims) if keepdims is not np._NoValue else False))
    if out is not None:
        return _store(r, out)
    return r


@handles(np.prod)
def prod_(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return fin(reduce_("multiply", base(a), axis, keepdims if keepdims is not np._NoValue else False))


@handles(np.mean, np.average)
def mean_(a, axis=None, dtype=None, out=None, keepdims=False, weights=None, **k):
    if weights is not None:
        w = base(weights)
        x = base(a)
        if w.ndim == 1 and x.ndim > 1:
            w = w.reshape([-1 if i == (axis or 0) else 1 for i in range(x.ndim)])
        w = np.broadcast_to(w, x.shape)
        return fin(reduce_("add", _uf("multiply")(x, w), axis)) / fin(reduce_("add", w, axis))
    x = base(a).view(SymArray)
    if isinstance(axis, tuple):
        n = int(np.prod([x.shape[i] for i in axis]))
    else:
        n = x.size if axis is None else x.shape[axis]
    r = fin(reduce_("add", x, axis, bool(keepdims) if keepdims is not np._NoValue else False))
    return r / n if n else float("nan")


@handles(np.amax, np.max)
def amax(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    return fin(reduce_("maximum", base(a), axis, keepdims if keepdims is not np._NoValue else False))


@handles(np.amin, np.min)
def amin(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    return fin(reduce_("minimum", base(a), axis, keepdims if keepdims is not np._NoValue else False))


@handles(np.any)
def any_(a, axis=None, out=None, keepdims=False, **k):
    return fin(reduce_("logical_or", base(a), axis, keepdims if keepdims is not np._NoValue else False))


@handles(np.all)
def all_(a, axis=None, out=None, keepdims=False, **k):
    return fin(reduce_("logical_and", base(a), axis, keepdims if keepdims is not np._NoValue else False))


@handles(np.argmax)
def argmax(a, axis=None, **k):
    return _argext(a, axis, True)


@handles(np.argmin)
def argmin(a, axis=None, **k):
    return _argext(a, axis, False)


@handles(np.clip)
def clip(a, lo=None, hi=None, out=None, **k):
    lo = k.get("a_min", lo)
    hi = k.get("a_max", hi)
    r = a
    if lo is not None:
        r = np.maximum(r, lo) if isinstance(r, np.ndarray) or is_sym(r) else _uf("maximum")(base(r), base(lo))
    if hi is not None:
        r = np.minimum(r, hi)
    return r


@handles(np.std)
def std_(a, axis=None, ddof=0, **k):
    return base(a).view(SymArray).std(axis=axis, ddof=ddof)


@handles(np.var)
def var_(a, axis=None, ddof=0, **k):
    return base(a).view(SymArray).var(axis=axis, ddof=ddof)


@handles(np.median)
def median_(a, axis=None, **k):
    x = base(a)
    if axis is None:
        x, axis = x.ravel(), 0
    x = np.moveaxis(x, axis, -1)
    out = np.empty(x.shape[:-1], dtype=object)
    for ix in np.ndindex(out.shape):
        row = list(x[ix])
        o = _sorted_idx(row)
        n = len(row)
        out[ix] = _num(row[o[n // 2]]) if n % 2 else (_num(row[o[n // 2 - 1]]) + row[o[n // 2]]) / 2
    return fin(out)


@handles(np.trace)
def trace(a, offset=0, axis1=0, axis2=1, **k):
    return fin(reduce_("add", np.diagonal(base(a), offset, axis1, axis2), -1))


@handles(np.diag)
def diag(v, k=0):
    b = base(v)
    if b.ndim == 1:
        n = b.shape[0] + abs(k)
        r = zeros((n, n))
        for i in range(b.shape[0]):
            r[i + max(0, -k), i + max(0, k)] = b[i]
        return r
    r = np.diagonal(b, k)
    return wrap(r)


@handles(np.triu)
def triu(m, k=0):
    b = base(m)
    mask = np.tri(*b.shape[-2:], k=k - 1, dtype=bool)
    return fin(np.frompyfunc(S.site, 3, 1)(np.broadcast_to(mask, b.shape).astype(object), base(0), b))


@handles(np.tril)
def tril(m, k=0):
    b = base(m)
    mask = np.tri(*b.shape[-2:], k=k, dtype=bool)
    return fin(np.frompyfunc(S.site, 3, 1)(np.broadcast_to(mask, b.shape).astype(object), b, base(0)))


@handles(np.outer)
def outer(a, b, out=None):
    return fin(_uf("multiply").outer(base(a).ravel(), base(b).ravel()))


@handles(np.allclose)
def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return fin(reduce_("logical_and", base(isclose(a, b, rtol, atol)), None))


@handles(np.isclose)
def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    d = _uf("absolute")(_uf("subtract")(base(a), base(b)))
    t = _uf("add")(base(atol), _uf("multiply")(base(rtol), _uf("absolute")(base(b))))
    return fin(np.asarray(_uf("less_equal")(d, t), dtype=object))


@handles(np.array_equal)
def array_equal(a, b, equal_nan=False):
    a, b = base(a), base(b)
    if a.shape != b.shape:
        return False
    return fin(reduce_("logical_and", np.asarray(_uf("equal")(a, b), dtype=object), None))


@handles(np.nan_to_num)
def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(e):
        if S._special(e):
            if math.isnan(e):
                return Sym.of(nan)
            return Sym.of((posinf if e > 0 else neginf) or (1.7976931348623157e308 * (1 if e > 0 else -1)))
        return e
    r = np.frompyfunc(f, 1, 1)(base(x))
    return fin(np.asarray(r, dtype=object))


@handles(np.sort)
def sort(a, axis=-1, **k):
    r = mkarray(a) if not isinstance(a, np.ndarray) else a.copy()
    wrap(r).sort(axis=axis)
    return r


@handles(np.argsort)
def argsort(a, axis=-1, **k):
    return base(a).view(SymArray).argsort(axis=axis)


@handles(np.cumsum)
def cumsum(a, axis=None, **k):
    b = base(a)
    if axis is None:
        b, axis = b.ravel(), 0
    return fin(_uf("add").accumulate(b, axis=axis))


@handles(np.diff)
def diff(a, n=1, axis=-1, **k):
    b = wrap(base(a))
    for _ in range(n):
        b = np.moveaxis(np.moveaxis(b, axis, -1)[..., 1:] - np.moveaxis(b, axis, -1)[..., :-1], -1, axis)
    return b


@handles(np.einsum)
def einsum(spec, *ops, **k):
    k.pop("optimize", None)
    s = spec.replace(" ", "")
    if s == "...jj->...j" or s == "...ii->...i":
        return wrap(np.einsum(spec, ops[0].view(np.ndarray) if isinstance(ops[0], SymArray) else ops[0]))
    if "->" in s and len(ops) == 1:
        i, o = s.split("->")
        if "..." not in s and len(set(o)) == len(o) and set(o) == set(i):
            return wrap(np.einsum(spec, ops[0].view(np.ndarray)))
    # generic contraction
    if "->" not in s:
        ins = s.split(",")
        letters = "".join(ins)
        outl = "".join(sorted(c for c in set(letters) if letters.count(c) == 1 and c != "."))
        if "..." in s:
            outl = "..." + outl
    else:
        l, outl = s.split("->")
        ins = l.split(",")
    arrs = [base(o) for o in ops]
    nb = 0
    for t, a in zip(ins, arrs):
        if "..." in t:
            nb = max(nb, a.ndim - len(t.replace("...", "")))
    bl = [chr(ord("A") + i) for i in range(nb)]

    def ex(t, nd=None):
        if "..." not in t:
            return t
        m = nb if nd is None else nd - len(t.replace("...", ""))
        return t.replace("...", "".join(bl[nb - m:]))
    ins = [ex(t, a.ndim) for t, a in zip(ins, arrs)]
    outl = ex(outl)
    dim = {}
    for t, a in zip(ins, arrs):
        for c, n in zip(t, a.shape):
            dim[c] = max(dim.get(c, 1), n)
    summed = [c for c in dim if c not in outl]
    r = np.empty([dim[c] for c in outl], dtype=object)
    for ix in np.ndindex(r.shape):
        e = dict(zip(outl, ix))
        acc = []
        for jx in itertools.product(*[range(dim[c]) for c in summed]):
            e.update(zip(summed, jx))
            t = Sym(S.const(1))
            for tt, a in zip(ins, arrs):
                t = t * _num(a[tuple(e[c] if a.shape[q] > 1 else 0 for q, c in enumerate(tt))])
            acc.append(t)
        r[ix] = fsum(acc)
    return fin(r)


@handles(np.fill_diagonal)
def fill_diagonal(a, val, wrap=False):
    n = min(a.shape)
    v = base(val)
    if isinstance(a, np.ndarray) and a.dtype != object:
        np.fill_diagonal(a, np.asarray(val, dtype=a.dtype))
        return
    b = a.view(np.ndarray)
    for i in range(n):
        b[(i,) * a.ndim] = v[()] if v.ndim == 0 else v.ravel()[i % v.size]


@handles(np.unique)
def unique(a, return_index=False, return_inverse=False, return_counts=False, **k):
    vals = list(base(a).ravel())
    o = _sorted_idx(vals)
    u, first, counts = [], [], []
    inv = [0] * len(vals)
    for i in o:
        if u and bool(_cmpf("==")(u[-1], vals[i])):
            counts[-1] += 1
        else:
            u.append(vals[i])
            first.append(i)
            counts.append(1)
        inv[i] = len(u) - 1
    r = [mkarray(u) if u else zeros((0,))]
    if return_index:
        r.append(np.array(first))
    if return_inverse:
        r.append(np.array(inv))
    if return_counts:
        r.append(np.array(counts))
    return r[0] if len(r) == 1 else tuple(r)


@handles(np.corrcoef)
def corrcoef(*a, **k):
    raise Unsupported("corrcoef")


@handles(np.cov)
def cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, **k):
    if y is not None or fweights is not None or aweights is not None:
        raise Unsupported("weighted covariance")
    X = asarray(m)
    if X.ndim < 2:
        X = X.reshape(1, -1)
    elif not rowvar:
        X = X.T
    n = X.shape[1]
    ddof = (0 if bias else 1) if ddof is None else ddof
    Y = X - X.mean(axis=1).reshape(-1, 1)
    out = matmul(Y, Y.T) / (n - ddof)
    return out if out.shape != (1, 1) else out[0, 0]


@handles(np.copyto)
def copyto(dst, src, where=True, **k):
    if where is True:
        dst[...] = src
    else:
        dst[...] = where_(where, src, dst)


@handles(np.may_share_memory, np.shares_memory)
def share(a, b, *r):
    return np.may_share_memory(np.asarray(a).view(np.ndarray), np.asarray(b).view(np.ndarray))


@handles(np.iscomplexobj)
def iscomplexobj(x):
    return False


@handles(np.isrealobj)
def isrealobj(x):
    return True


@handles(np.array_repr, np.array_str, np.array2string)
def array_repr(a, *r, **k):
    return "SymArray%s" % (a.shape,)


# --------------------------------------------------------------------------
# creation
def _isfloat(dtype):
    if dtype is None:
        return True
    if dtype is object or dtype == object:
        return True
    return np.dtype(dtype).kind == "f"


def full(shape, fill_value, dtype=None, order="C", **k):
    if dtype is not None and not _isfloat(dtype):
        return np.full(shape, fill_value, dtype=dtype)
    if dtype is None and not has_sym(fill_value) and isinstance(fill_value, (bool, np.bool_)):
        return np.full(shape, fill_value)
    shape = tuple(int(s) for s in shape) if isinstance(shape, (tuple, list, np.ndarray)) else (int(shape),)
    out = np.empty(shape, dtype=object)
    fv = base(fill_value)
    if fv.ndim == 0:
        for ix in np.ndindex(shape):
            out[ix] = fv[()]
    else:
        out[...] = fv
    return out.view(SymArray)


def zeros(shape, dtype=None, order="C", **k):
    return full(shape, 0.0, dtype=float if dtype is None else dtype) if _isfloat(dtype) else np.zeros(shape, dtype)


def ones(shape, dtype=None, order="C", **k):
    return full(shape, 1.0, dtype=float) if _isfloat(dtype) else np.ones(shape, dtype)


EMPTY = [0]


def empty(shape, dtype=None, order="C", **k):
    if not _isfloat(dtype):
        return np.zeros(shape, dtype)
    shape = tuple(int(s) for s in shape) if isinstance(shape, (tuple, list)) else (int(shape),)
    out = np.empty(shape, dtype=object)
    for ix in np.ndindex(shape):  # uninitialised memory = arbitrary values
        EMPTY[0] += 1
        out[ix] = S.var("uninit!%d" % EMPTY[0])
    return out.view(SymArray)


def _like(f):
    def g(a, dtype=None, order="K", subok=True, shape=None, **k):
        a = a if isinstance(a, np.ndarray) else mkarray(a)
        if dtype is None and a.dtype.kind in "iub":
            return getattr(np, f.__name__)(a.shape if shape is None else shape, dtype=a.dtype)
        return f(a.shape if shape is None else shape, dtype=dtype)
    return g


zeros_like = _like(zeros)
ones_like = _like(ones)
empty_like = _like(empty)


def full_like(a, fill_value, dtype=None, **k):
    return full(np.shape(a), fill_value, dtype=dtype if dtype is not None else float)


HANDLED[np.zeros_like] = zeros_like
HANDLED[np.ones_like] = ones_like
HANDLED[np.empty_like] = empty_like
HANDLED[np.full_like] = full_like


def eye(N, M=None, k=0, dtype=None, **kw):
    if dtype is not None and not _isfloat(dtype):
        return np.eye(N, M, k, dtype=dtype)
    return mkarray(np.eye(N, M, k))


def identity(n, dtype=None, **k):
    return eye(n, dtype=dtype)


def array(x, dtype=None, copy=True, order="K", subok=False, ndmin=0, **k):
    if isinstance(x, (map, zip, filter, types.GeneratorType)):
        r = np.empty((), dtype=object)
        r[()] = x
        return r
    if dtype is not None and dtype is not object and not _isfloat(dtype):
        if has_sym(x):
            return wrap(mkarray(x)).astype(dtype)
        return np.array(x, dtype=dtype, ndmin=ndmin)
    r = mkarray(x)
    if dtype is not None and isinstance(r, np.ndarray) and r.dtype.kind in "iub":
        r = mkarray(r.astype(float))
    if isinstance(r, np.ndarray) and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def asarray(x, dtype=None, order=None, **k):
    if isinstance(x, np.ndarray) and x.dtype == object:
        if dtype is not None and dtype is not object and not _isfloat(dtype):
            return wrap(x).astype(dtype)
        return wrap(x)
    if isinstance(x, np.ndarray) and x.dtype.kind in "iub" and dtype is None:
        return x
    return array(x, dtype=dtype)


def linspace(a, b, num=50, **k):
    if has_sym(a) or has_sym(b):
        a, b = Sym.of(a), Sym.of(b)
        return mkarray([a + (b - a) * Fraction(i, max(1, num - 1)) for i in range(num)])
    fa, fb = S.to_frac(a), S.to_frac(b)
    return mkarray([Sym(S.const(fa + (fb - fa) * Fraction(i, max(1, num - 1)))) for i in range(num)])


def arange(*a, **k):
    a = [int(x) if isinstance(x, Sym) and x.isconst() and x.const().denominator == 1 else x for x in a]
    r = np.arange(*a, **k)
    return mkarray(r) if r.dtype.kind == "f" else r


def ufunc_shim(u):
    def f(*args, **kw):
        out = kw.get("out")
        sy = any(has_sym(a) for a in args) or (out is not None and has_sym(out))
        isf = any(isinstance(a, (float, np.floating)) or (isinstance(a, np.ndarray) and a.dtype.kind == "f")
                  for a in args)
        if sy or isf or u.__name__ in ("sqrt", "log", "exp", "true_divide", "divide", "log2", "log10", "log1p",
                                       "expm1", "power", "square", "sin", "cos"):
            if u.__name__ in ("bitwise_and", "bitwise_or", "less", "greater", "equal", "not_equal", "less_equal",
                              "greater_equal", "isnan", "isinf", "isfinite", "floor", "ceil", "rint") and not sy:
                return u(*args, **kw)
            if u.__name__ not in PYF and u.__name__ != "matmul":
                if not sy:
                    return lift_any(u(*args, **kw))
                raise Unsupported("ufunc %s" % u.__name__)
            return dispatch(u, "__call__", args, kw)
        return u(*args, **kw)
    f.reduce = lambda *a, **k: dispatch(u, "reduce", a, k) if has_sym(a[0]) else lift_any(u.reduce(*a, **k))
    f.outer = lambda *a, **k: dispatch(u, "outer", a, k) if has_sym(list(a)) else lift_any(u.outer(*a, **k))
    f.accumulate = lambda *a, **k: dispatch(u, "accumulate", a, k) if has_sym(a[0]) else lift_any(u.accumulate(*a, **k))
    f.at = lambda *a, **k: dispatch(u, "at", a, k) if has_sym(a[0]) else u.at(*a, **k)
    f.__name__ = u.__name__
    return f


def lift_any(r):
    if isinstance(r, (float, np.floating)):
        return lift_scalar(r)
    if isinstance(r, np.ndarray) and r.dtype.kind == "f":
        return mkarray(r)
    if isinstance(r, tuple):
        return tuple(lift_any(x) for x in r)
    return wrap(r)


SEQ = {"concatenate", "stack", "hstack", "vstack", "dstack", "column_stack", "block", "append", "row_stack"}


def func_shim(name, f):
    h = HANDLED.get(f)

    def g(*args, **kw):
        sy = any(has_sym(a) for a in args) or any(has_sym(a) for a in kw.values())
        if h is not None and (sy or any(isinstance(a, np.ndarray) and a.dtype.kind == "f" for a in args)):
            return h(*args, **kw)
        if sy:
            if name in SEQ:
                args = tuple([([mkarray(y) if not isinstance(y, np.ndarray) else (mkarray(y) if y.dtype.kind == "f" else y) for y in a]
                               if isinstance(a, (list, tuple)) else a)] [0] for a in args)
            else:
                args = tuple(mkarray(a) if isinstance(a, (list, tuple)) and has_sym(a) else a for a in args)
        r = f(*args, **kw)
        return lift_any(r) if not isinstance(r, list) else [lift_any(x) for x in r]
    g.__name__ = name
    return g
