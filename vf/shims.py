"""Module look-alikes and the loader that executes /repo's source symbolically."""
import builtins
import importlib
import os
import sys
import types
import warnings as _warnings

import numpy as np

from . import arr, linalg
from . import sym as S
from .arr import SymArray, base, has_sym, mkarray, wrap
from .sym import Sym, SymBool, Unsupported

REPO = os.environ.get("VF_REPO", "/repo")


class Shim(types.ModuleType):
    """Attribute overrides on top of a real module."""

    def __init__(self, name, real, overrides=None, wrapper=None):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__["_wrapper"] = wrapper
        self.__dict__.update(overrides or {})

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        v = getattr(self.__dict__["_real"], k)
        w = self.__dict__["_wrapper"]
        if w is not None:
            v = w(k, v)
        self.__dict__[k] = v
        return v


def _np_wrap(name, v):
    if isinstance(v, np.ufunc):
        return arr.ufunc_shim(v)
    if isinstance(v, type) or not callable(v):
        return v
    return arr.func_shim(name, v)


class NDIterShim(object):
    pass


def _isscalar(x):
    return isinstance(x, (Sym, SymBool)) or np.isscalar(x)


def _np_isnan(x):
    if has_sym(x):
        return arr.dispatch(np.isnan, "__call__", (x,), {})
    return np.isnan(x)


def _unsupported(name):
    def f(*a, **k):
        raise Unsupported(name)
    return f


def _matlike(f):
    return f


def _atleast_2d(*xs):
    r = []
    for x in xs:
        a = arr.asarray(x)
        r.append(a.reshape(1, 1) if a.ndim == 0 else (a[None] if a.ndim == 1 else a))
    return r[0] if len(r) == 1 else r


def _float_cls(real):
    """float/np.float64 usable as converter on symbolic values and as dtype/type."""
    return real


class RandomShim(types.ModuleType):
    """numpy.random: harnesses install symbolic generators; default unsupported."""

    def __init__(self):
        super().__init__("numpy.random")
        self.impl = None

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        impl = self.__dict__.get("impl")
        if impl is not None and hasattr(impl, k):
            return getattr(impl, k)
        if k in ("RandomState", "Generator", "mtrand"):
            return getattr(np.random, k)
        raise Unsupported("numpy.random.%s" % k)


def _ma_array(data, dtype=None, copy=False, mask=None, **k):
    if mask is not None or k:
        raise Unsupported("masked entries")
    return arr.array(data)


def build_numpy():
    la = Shim("numpy.linalg", np.linalg, dict(linalg.OVERRIDES))
    ov = dict(
        array=arr.array, asarray=arr.asarray, asanyarray=arr.asarray, ascontiguousarray=arr.asarray,
        asfortranarray=arr.asarray, asarray_chkfinite=arr.asarray,
        zeros=arr.zeros, ones=arr.ones, empty=arr.empty, full=arr.full, eye=arr.eye, identity=arr.identity,
        zeros_like=arr.zeros_like, ones_like=arr.ones_like, empty_like=arr.empty_like, full_like=arr.full_like,
        linspace=arr.linspace, arange=arr.arange, isscalar=_isscalar, isnan=_np_isnan,
        linalg=la, random=RandomShim(), atleast_2d=_atleast_2d, matmul=arr.matmul, dot=arr.dot,
        copy=lambda a, *r, **k: arr.array(a),
        abs=arr.ufunc_shim(np.absolute),
        ma=Shim("numpy.ma", np.ma, {"array": _ma_array, "asarray": _ma_array}),
        bool_=np.bool_, seterr=lambda **k: {},
    )
    return Shim("numpy", np, ov, _np_wrap)


# -- sklearn pieces: exact formulas -----------------------------------------
def squared_norm(x):
    return arr.fsum([arr._num(e) * arr._num(e) for e in base(x).flat])


def empirical_covariance(X, *, assume_centered=False):
    X = arr.asarray(X)
    if X.ndim == 1:
        X = X.reshape(1, -1)
    n = X.shape[0]
    if assume_centered:
        return arr.matmul(X.T, X) / n
    Y = X - X.mean(axis=0)
    return arr.matmul(Y.T, Y) / n


def log_likelihood(emp_cov, precision):
    p = precision.shape[0]
    ll = -arr.sum_(emp_cov * precision) + linalg.fast_logdet(precision)
    ll = ll - p * S.slog(S.sfn("twopi", Sym.of(1)) if False else S.var("PI2", pos=True))
    return ll / 2


def check_array(array, *a, **k):
    if isinstance(array, np.ndarray) and array.dtype == object:
        x = wrap(array)
        return x.copy() if k.get("copy") else x
    if isinstance(array, (list, tuple)) and has_sym(array):
        return mkarray(array)
    from sklearn.utils.validation import check_array as ca
    return arr.lift_any(ca(array, *a, **k))


def check_X_y(X, y, *a, **k):
    return check_array(X, copy=bool(k.get("copy"))), (y if isinstance(y, np.ndarray) else np.asarray(y))


def column_or_1d(y, **k):
    return np.ravel(y)


def squareform(X, force="no", checks=True):
    b = base(X)
    if b.ndim == 1:
        n = int(round((1 + (1 + 8 * b.size) ** 0.5) / 2))
        if n * (n - 1) // 2 != b.size:
            raise ValueError("Incompatible vector size.")
        out = arr.zeros((n, n))
        k = 0
        for i in range(n):
            for j in range(i + 1, n):
                out[i, j] = out[j, i] = b[k]
                k += 1
        return out
    n = b.shape[0]
    if checks:
        for i in range(n):
            for j in range(n):
                if not (bool(b[i, j] == b[j, i]) if i != j else bool(b[i, i] == 0)):
                    raise ValueError("Distance matrix must be symmetric with a zero diagonal.")
    return mkarray([b[i, j] for i in range(n) for j in range(i + 1, n)])


def rankdata(a, method="average", **k):
    xs = [arr._num(e) if not S._special(e) else e for e in base(arr.asarray(a)).flat]
    if method != "min":
        raise Unsupported("ranks other than the minimum")
    out = []
    for x in xs:
        r = 1
        for y in xs:
            if y is not x and bool(y < x):
                r += 1
        out.append(r)
    return np.array(out)


def _bools(x):
    return [bool(e != 0) for e in base(x).flat]


def matthews_corrcoef(y_true, y_pred, **k):
    t, p = _bools(y_true), _bools(y_pred)
    tp = builtins.sum(a and b for a, b in zip(t, p))
    tn = builtins.sum(not a and not b for a, b in zip(t, p))
    fp = builtins.sum(not a and b for a, b in zip(t, p))
    fn = builtins.sum(a and not b for a, b in zip(t, p))
    q = (tp + fp) * (tp + fn) * (tn + fp) * (tn + fn)
    if q == 0:
        return 0.0
    return Sym.of(tp * tn - fp * fn) / S.ssqrt(Sym.of(q))


def average_precision_score(y_true, y_score, **k):
    """sum_n (R_n - R_{n-1}) P_n over the distinct score levels, highest first."""
    from fractions import Fraction
    t = _bools(y_true)
    sc = list(base(y_score).flat)
    if not any(t):
        return 0.0
    order = []
    for i in range(len(sc)):        # insertion into groups of equal scores
        for g, grp in enumerate(order):
            if bool(sc[i] == sc[grp[0]]):
                grp.append(i)
                break
            if bool(sc[i] > sc[grp[0]]):
                order.insert(g, [i])
                break
        else:
            order.append([i])
    tot, tp, n, res = builtins.sum(t), 0, 0, Fraction(0)
    for grp in order:
        new = builtins.sum(t[i] for i in grp)
        tp += new
        n += len(grp)
        res += Fraction(new, tot) * Fraction(tp, n)
    return Sym(S.const(res))


def _tv(col, beta):
    """Exact total-variation proximal point of a short sequence (two points: closed form; one: identity)."""
    if len(col) == 1:
        return list(col)
    if len(col) == 2:
        d = arr._num(col[1]) - arr._num(col[0])
        s = S.ssign(d) * S.smin(beta, S.sabs(d) / 2)
        return [col[0] + s, col[1] - s]
    n = len(col)
    return S.ctx().uf("tv%d" % n, [arr._num(c) for c in col] + [arr._num(beta)], n, lambda v: _num_tv(v))


def _num_tv(v):
    import prox_tv
    return list(prox_tv.tv1_1d(np.ascontiguousarray(v[:-1], dtype=float), float(v[-1])))


def tvgen(x, ws, ds, ps, n_threads=1, max_iters=0):
    b = base(x)
    if len(ws) != 1 or list(ds) != [1] or any(bool(p != 1) for p in ps):
        raise Unsupported("tvgen with other than one l1 penalty on the first axis")
    out = np.empty(b.shape, dtype=object)
    for ix in np.ndindex(b.shape[1:]):
        col = _tv([b[(t,) + ix] for t in range(b.shape[0])], ws[0])
        for t in range(b.shape[0]):
            out[(t,) + ix] = col[t]
    return wrap(out)


def tv1_1d(x, w, **k):
    return mkarray(_tv(list(base(x).flat), w))


def mvn_logpdf(x, mean=None, cov=1, allow_singular=False):
    """Log density of the normal distribution with a positive definite covariance."""
    x = arr.asarray(x)
    C = arr.asarray(cov)
    if C.ndim != 2:
        raise Unsupported("normal with scalar or diagonal covariance")
    d = C.shape[0]
    if x.ndim == 1 and d == 1:
        x = x[:, None]
    if x.shape[-1] != d:
        raise ValueError("Array 'mean' must be a vector of length %d." % d)
    y = x if mean is None else x - arr.asarray(mean)
    D = linalg.det(C)
    if not bool(D > 0):
        raise Unsupported("normal with a singular covariance")
    K = linalg.inv(C)
    c = d * S.slog(S.var("PI2", pos=True)) + S.slog(D)
    b = base(y)
    out = np.empty(b.shape[:-1], dtype=object)
    for ix in np.ndindex(out.shape):
        v = b[ix]
        q = arr.fsum([v[i] * K[i, j] * v[j] for i in range(d) for j in range(d)])
        out[ix] = -(q + c) / 2
    return arr.fin(np.asarray(np.squeeze(out), dtype=object))


class FrozenMvn(object):
    def __init__(self, mean=None, cov=1, allow_singular=False, **k):
        self.mean, self.cov, self.allow_singular = mean, cov, allow_singular

    def logpdf(self, x):
        return mvn_logpdf(x, self.mean, self.cov, self.allow_singular)

    def pdf(self, x):
        return np.exp(self.logpdf(x))


class Mvn(object):
    """scipy.stats.multivariate_normal."""
    def __call__(self, *a, **k):
        return FrozenMvn(*a, **k)

    logpdf = staticmethod(mvn_logpdf)

    def pdf(self, *a, **k):
        return np.exp(mvn_logpdf(*a, **k))


def rbf_kernel(X, Y=None, gamma=None):
    X = arr.asarray(X)
    Y = X if Y is None else arr.asarray(Y)
    if X.ndim != 2 or Y.ndim != 2:
        raise ValueError("Expected 2D array")
    if gamma is None:
        gamma = Sym.of(1) / X.shape[1]
    a, b = base(X), base(Y)
    out = np.empty((a.shape[0], b.shape[0]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(b.shape[0]):
            out[i, j] = S.sexp(-gamma * arr.fsum([(arr._num(u) - arr._num(v)) * (arr._num(u) - arr._num(v))
                                                  for u, v in zip(a[i], b[j])]))
    return wrap(out)


class SerialParallel(object):
    """joblib.Parallel: the calls in order."""
    def __init__(self, *a, **k):
        pass

    def __call__(self, it):
        return [f(*a, **k) for f, a, k in it]


def linear_base():
    """sklearn.linear_model._base: centring before the fit, intercept after it, linear predictions."""
    from sklearn.base import BaseEstimator

    def _pre_fit(X, y, Xy, precompute, normalize, fit_intercept, copy, check_input=True, sample_weight=None):
        if normalize or sample_weight is not None or precompute is not False:
            raise Unsupported("normalised, weighted or precomputed linear models")
        X, y = arr.asarray(X), arr.asarray(y)
        d = X.shape[1]
        one = arr.zeros(d) + 1
        if fit_intercept:
            xo, yo = X.mean(axis=0), y.mean(axis=0)
            if copy:
                X = X - xo
            else:
                X -= xo
            y = y - yo
        else:
            xo, yo = arr.zeros(d), arr.zeros(y.shape[1:]) if y.ndim > 1 else Sym({})
        return X, y, xo, yo, one, False, None

    class LinearModel(BaseEstimator):
        def _decision_function(self, X):
            return arr.dot(arr.asarray(X), self.coef_.T) + self.intercept_

        def predict(self, X):
            return self._decision_function(X)

        def _set_intercept(self, X_offset, y_offset, X_scale):
            if self.fit_intercept:
                self.coef_ = self.coef_ / X_scale
                self.intercept_ = y_offset - arr.dot(X_offset, self.coef_.T)
            else:
                self.intercept_ = 0.0
    return {"_pre_fit": _pre_fit, "LinearModel": LinearModel}


EXTRA = {}     # dotted name -> replacement, set by harnesses


def real_or_none(name):
    try:
        return importlib.import_module(name)
    except Exception:
        return types.ModuleType(name)


def build_shims():
    npx = build_numpy()
    sk_ext = {"squared_norm": squared_norm, "fast_logdet": linalg.fast_logdet,
              "safe_sparse_dot": lambda a, b, **k: arr.dot(a, b)}
    sk_cov = {"empirical_covariance": empirical_covariance, "log_likelihood": log_likelihood}
    sk_val = {"check_array": check_array, "check_X_y": check_X_y, "column_or_1d": column_or_1d,
              "check_is_fitted": lambda *a, **k: None}
    sp_la = Shim("scipy.linalg", real_or_none("scipy.linalg"), dict(linalg.SP_OVERRIDES))
    sp_opt = Shim("scipy.optimize", real_or_none("scipy.optimize"),
                  {"minimize": _unsupported("scipy.optimize.minimize")})
    sp_special = Shim("scipy.special", real_or_none("scipy.special"), special_overrides())
    sp_stats = Shim("scipy.stats", real_or_none("scipy.stats"), {"rankdata": rankdata, "multivariate_normal": Mvn()})
    sp = Shim("scipy", real_or_none("scipy"), {"linalg": sp_la, "optimize": sp_opt, "special": sp_special,
                                               "stats": sp_stats})
    ext = Shim("sklearn.utils.extmath", real_or_none("sklearn.utils.extmath"), sk_ext)
    val = Shim("sklearn.utils.validation", real_or_none("sklearn.utils.validation"), sk_val)
    cov = Shim("sklearn.covariance", real_or_none("sklearn.covariance"), sk_cov)
    skut = Shim("sklearn.utils", real_or_none("sklearn.utils"),
                {"extmath": ext, "validation": val, "check_array": check_array, "check_X_y": check_X_y,
                 "deprecated": lambda *a, **k: (lambda f: f),
                 "check_random_state": lambda seed=None: seed if seed is not None else npx.random})
    sk = Shim("sklearn", real_or_none("sklearn"), {"utils": skut, "covariance": cov})
    out = {"numpy": npx, "numpy.linalg": npx.linalg, "numpy.random": npx.random,
           "numpy.linalg.linalg": npx.linalg, "numpy.core.umath": npx, "numpy.core": npx,
           "scipy": sp, "scipy.linalg": sp_la, "scipy.optimize": sp_opt, "scipy.special": sp_special,
           "scipy.stats": sp_stats,
           "sklearn": sk, "sklearn.utils": skut, "sklearn.utils.extmath": ext,
           "sklearn.utils.validation": val, "sklearn.covariance": cov}
    out["scipy.signal"] = Shim("scipy.signal", real_or_none("scipy.signal"), {"square": _unsupported("scipy.signal.square")})
    sp.signal = out["scipy.signal"]
    out["scipy.spatial.distance"] = Shim("scipy.spatial.distance", real_or_none("scipy.spatial.distance"),
                                         {"squareform": squareform})
    out["scipy.spatial"] = Shim("scipy.spatial", real_or_none("scipy.spatial"),
                                {"distance": out["scipy.spatial.distance"]})
    out["sklearn.metrics"] = Shim("sklearn.metrics", real_or_none("sklearn.metrics"),
                                  {"matthews_corrcoef": matthews_corrcoef,
                                   "average_precision_score": average_precision_score})
    out["sklearn.metrics.pairwise"] = Shim("sklearn.metrics.pairwise", real_or_none("sklearn.metrics.pairwise"),
                                           {"rbf_kernel": rbf_kernel})
    out["sklearn.metrics"].pairwise = out["sklearn.metrics.pairwise"]
    out["prox_tv"] = Shim("prox_tv", real_or_none("prox_tv"), {"tvgen": tvgen, "tv1_1d": tv1_1d})
    out["sklearn.linear_model._base"] = Shim("sklearn.linear_model._base", real_or_none("sklearn.linear_model._base"),
                                             linear_base())
    out["joblib"] = Shim("joblib", real_or_none("joblib"), {"Parallel": SerialParallel})
    wm = Shim("warnings", _warnings, {"warn": sym_warn})
    out["warnings"] = wm
    six = types.ModuleType("six.moves")
    six.range, six.zip, six.map, six.filter, six.input = sym_range, zip, map, filter, input
    six.cPickle = __import__("pickle")
    six.builtins = builtins
    out["six.moves"] = six
    for name, v in EXTRA.items():
        mod, attr = name.rsplit(".", 1)
        if mod not in out:
            out[mod] = Shim(mod, real_or_none(mod), {})
        setattr(out[mod], attr, v)
    return out


def _num_multigammaln(v):
    from scipy.special import multigammaln
    return [float(multigammaln(v[0], int(round(v[1]))))]


def special_overrides():
    ex = arr._un(S.sexp)

    def expit(x):
        b = base(x)
        return arr.fin(np.asarray(np.frompyfunc(lambda e: 1 / (1 + S.sexp(-arr._num(e))), 1, 1)(b), dtype=object))

    def logsumexp(a, axis=None, **k):
        return np.log(arr.sum_(arr.dispatch(np.exp, "__call__", (a,), {}), axis=axis))

    def unary(name):
        def f(x, *r):
            b = base(x)
            return arr.fin(np.asarray(np.frompyfunc(lambda e: S.sfn(name, arr._num(e)), 1, 1)(b), dtype=object))
        return f

    def binary(name, numeric=None):
        def f(x, y):
            return arr.fin(np.asarray(np.frompyfunc(
                lambda a, b: S.ctx().uf(name, [a, b], 1, numeric)[0], 2, 1)(base(x), base(y)), dtype=object))
        return f
    return {"expit": expit, "logsumexp": logsumexp, "gammaln": unary("gammaln"), "gamma": unary("gamma"),
            "factorial": unary("factorial"), "multigammaln": binary("multigammaln", _num_multigammaln), "digamma": unary("digamma")}


def sym_warn(message, category=None, *a, **k):
    c = S.CTX[0]
    if c is not None:
        c.warned.append(str(message))


class IterBound(int):
    """An iteration limit whose loop is explored with a symbolic iteration index.

    ``range(IterBound(n))`` yields 0, 1, ... concretely, except that the last index is
    an arbitrary later iteration (a symbolic integer >= n-1) when ``sym`` is set.
    """
    sym = None

    def __new__(cls, n, sym=None):
        o = int.__new__(cls, n)
        o.sym = sym
        return o


_range = range


def sym_range(*a):
    if len(a) == 1 and isinstance(a[0], IterBound) and a[0].sym is not None:
        n = int(a[0])
        return list(_range(n - 1)) + [a[0].sym]
    a = [x.__index__() if isinstance(x, Sym) else x for x in a]
    return _range(*a)


def _bmax(*args, **kw):
    if len(args) == 1:
        xs = list(args[0])
    else:
        xs = list(args)
    if "key" not in kw and any(isinstance(x, (Sym, SymBool)) for x in xs):
        if not xs:
            return kw["default"]
        r = xs[0]
        for x in xs[1:]:
            # Python's max keeps the first of equal elements (and nan quirks are out of scope)
            r = S.smax(r, x)
        return r
    return builtins.max(*args, **kw)


def _bmin(*args, **kw):
    xs = list(args[0]) if len(args) == 1 else list(args)
    if "key" not in kw and any(isinstance(x, (Sym, SymBool)) for x in xs):
        r = xs[0]
        for x in xs[1:]:
            r = S.smin(r, x)
        return r
    return builtins.min(*args, **kw)


def _bsum(it, start=0):
    xs = list(it)
    if xs and all(isinstance(x, (Sym, SymBool, int, float, np.number)) for x in xs) and \
            any(isinstance(x, (Sym, SymBool)) for x in xs):
        r = arr.fsum(xs)
        return r + start
    r = start
    for x in xs:
        r = r + x
    return r


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, Sym))

    def __subclasscheck__(cls, c):
        return issubclass(c, (float, Sym))

    def __call__(cls, x=0.0):
        if isinstance(x, (Sym, SymBool)):
            return Sym.of(x)
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return Sym.of(x.flat[0])
        return builtins.float(x)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class SymFloat(float, metaclass=_FloatMeta):
    """builtins.float stand-in (still a valid numpy dtype specifier)."""
    pass


def _all(it):
    return builtins.all(bool(x) for x in it)


def _any(it):
    return builtins.any(bool(x) for x in it)


def _round(x, n=None):
    return builtins.round(x, n) if n is not None else builtins.round(x)


class Loader(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.shims = build_shims()
        self.files = {}
        b = dict(builtins.__dict__)
        b.update(__import__=self._import, max=_bmax, min=_bmin, sum=_bsum, range=sym_range, print=lambda *a, **k: None,
                 float=SymFloat)
        self.builtins = b

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or globals["__name__"].rpartition(".")[0]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        if name == "regain" or name.startswith("regain."):
            m = self.load(name, explicit=True)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            self.load(name + "." + f, explicit=True)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.mods["regain"]
        if name in self.shims:
            m = self.shims[name]
            if fromlist:
                for f in fromlist:
                    if (name + "." + f) in self.shims:
                        m.__dict__[f] = self.shims[name + "." + f]
                return m
            parts = name.split(".")
            for k in range(1, len(parts)):
                pn = ".".join(parts[:k])
                if pn not in self.shims:
                    self.shims[pn] = Shim(pn, real_or_none(pn))
            for k in range(1, len(parts)):
                self.shims[".".join(parts[:k])].__dict__[parts[k]] = self.shims[".".join(parts[:k + 1])]
            return self.shims[parts[0]]
        try:
            return builtins.__import__(name, globals, locals, fromlist, 0)
        except ImportError:
            raise

    def path(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.isdir(p):
            return None, True
        raise ModuleNotFoundError("No module named %r" % name, name=name)

    def load(self, name, explicit=False):
        m = self.mods.get(name)
        if m is not None and (not explicit or m.__dict__.get("__vf_loaded__")):
            return m
        fn, ispkg = self.path(name)
        if "." in name:
            parent, _, leaf = name.rpartition(".")
            if parent not in self.mods:
                self._blank(parent)
        if m is None:
            m = self._blank(name)
        if fn is not None and not m.__dict__.get("__vf_loaded__"):
            m.__dict__["__vf_loaded__"] = True
            with open(fn) as f:
                src = f.read()
            self.files[name] = fn
            try:
                exec(compile(src, fn, "exec"), m.__dict__)
            except BaseException:
                m.__dict__["__vf_loaded__"] = False
                self.mods.pop(name, None)
                raise
        if "." in name:
            parent, _, leaf = name.rpartition(".")
            setattr(self.mods[parent], leaf, m)
        return m

    def _blank(self, name):
        if name in self.mods:
            return self.mods[name]
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.builtins
        fn, ispkg = self.path(name)
        m.__file__ = fn
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg:
            m.__path__ = [os.path.dirname(fn) if fn else ""]
        self.mods[name] = m
        if "." in name:
            parent, _, leaf = name.rpartition(".")
            p = self._blank(parent)
            setattr(p, leaf, m)
        return m
