"""Harness API: the same harness runs symbolically (all values) and concretely (replay)."""
import importlib
import importlib.util
import json
import math
import os
import sys
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class SkipSample(Exception):
    """A concrete sample outside of the harness's assumptions."""


class CheckFailed(Exception):
    def __init__(self, label, msg):
        super().__init__("%s: %s" % (label, msg))
        self.label = label
        self.msg = msg


def _rows(name, shape):
    return [name + "".join("_%d" % i for i in ix) for ix in np.ndindex(*shape)]


def stub_values(name, n, pos, flat):
    """A fixed smooth pseudo-random function of the arguments."""
    h = sum((i + 1) * 0.7310 * math.sin(1.37 * v + i) for i, v in enumerate(flat)) + sum(ord(c) for c in name) * 0.01
    out = [math.sin(h * (1.3 + 0.7 * k) + k) for k in range(n)]
    return [abs(v) + 0.05 for v in out] if pos else out


class HBase(object):
    sym = False

    def __init__(self, cfg):
        self.cfg = cfg

    def symmetric(self, name, d, **k):
        a = self.empty((d, d))
        for i in range(d):
            for j in range(i + 1):
                a[i, j] = a[j, i] = self.real("%s_%d_%d" % (name, i, j), **k)
        return a

    def symmetrics(self, name, n, d, **k):
        a = self.empty((n, d, d))
        for t in range(n):
            a[t] = self.symmetric("%s%d" % (name, t), d, **k)
        return a

    def array(self, name, shape, **k):
        shape = shape if isinstance(shape, tuple) else (shape,)
        a = self.empty(shape)
        for ix, nm in zip(np.ndindex(*shape), _rows(name, shape)):
            a[ix] = self.real(nm, **k)
        return a

    def spd(self, name, d):
        """Symmetric positive definite, as L L' with a positive diagonal."""
        L = self.empty((d, d))
        for i in range(d):
            for j in range(d):
                L[i, j] = self.real("%sL_%d_%d" % (name, i, j)) if j < i else \
                    (self.pos("%sL_%d_%d" % (name, i, i)) if i == j else self.lit(0))
        return self.matmul(L, L.T)

    def pos(self, name):
        return self.real(name, pos=True)

    def nonneg(self, name):
        return self.real(name, nonneg=True)

    def below(self, name, n):
        """An arbitrary index 0..n-1 (one path each)."""
        v = self.real(name)
        for k in range(n - 1):
            if v < (k - (n - 2) / 2.0):
                return k
        return n - 1


class HSym(HBase):
    sym = True

    def use_known(self):
        """Conditions already decided on a path are used as constants from here on."""
        self.cx.use_known = True

    def __init__(self, cfg, cx, loader):
        super().__init__(cfg)
        from . import arr, sym
        self.cx, self.L, self.arr, self.S = cx, loader, arr, sym
        self.names = {}
        self.observed = []

    def mod(self, name):
        return self.L.load(name, explicit=True)

    def lit(self, x):
        return self.arr.lift_scalar(x)

    def empty(self, shape):
        return self.arr.zeros(shape)

    def matmul(self, a, b):
        return self.arr.matmul(a, b)

    def real(self, name, pos=False, nonneg=False):
        v = self.S.var("in:" + name, pos=pos, nonneg=nonneg)
        self.names[name] = next(iter(v.p))[0][0]
        return v

    def unit(self, name):
        """Strictly between zero and one."""
        v = self.pos(name)
        self.assume(v < 1)
        return v

    def boolean(self, name):
        v = self.real(name)
        return v > 0

    def flag(self, name):
        """A concrete boolean, forked."""
        return bool(self.boolean(name))

    def iterations(self, n, name=None):
        """Iteration limit n; with a name the last iteration index is an arbitrary later one."""
        from .shims import IterBound
        if name is None:
            return n
        k = self.real(name)
        self.assume(k >= n - 1)
        self.iter_index = k
        return IterBound(n, k)

    def assume(self, c):
        self.cx.assume(c)

    def check(self, c, label):
        self.cx.check(c if not hasattr(c, "dtype") or c.dtype != object else self.arr.all_(c), label)

    def leq(self, a, b, label, tol=None):
        A, B = self.arr, self.S
        r = np.asarray(A._uf("less_equal")(A.base(a), A.base(b)), dtype=object)
        self.cx.check(B.mkbool(B.b_and(*[B.to_b(c) for c in r.flat])), label)

    def equal(self, a, b, label, tol=None):
        A, B = self.arr, self.S
        if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
            self.cx.check(a == b if not (a is None or b is None) else a is b, label)
            return
        x, y = A.base(a), A.base(b)
        self.observed.append((label, x))
        if x.shape != y.shape:
            self.cx.check(False, label + ": shape %s, expected %s" % (x.shape, y.shape))
            return
        conds = []
        for ix in np.ndindex(x.shape):
            e, f = x[ix], y[ix]
            if B._special(e) or B._special(f):
                if B._special(e) and B._special(f) and (e == f or (math.isnan(e) and math.isnan(f))):
                    continue
                conds.append(False)
                continue
            if isinstance(e, (A.Sym, A.SymBool)) or isinstance(f, (A.Sym, A.SymBool)):
                conds.append(A._cmpf("==")(e, f))
            else:
                conds.append(bool(e == f))
        self.cx.check(B.mkbool(B.b_and(*[B.to_b(c) for c in conds])), label)

    def finite(self, a, label):
        x = self.arr.base(a)
        self.cx.check(not any(self.S._special(e) for e in x.flat), label)

    def raises(self, exc, fn, label):
        from .sym import Unsupported
        try:
            fn()
        except Unsupported:
            raise
        except Exception as e:
            self.cx.check(isinstance(e, exc), label + ": raised %s" % type(e).__name__)
            return
        self.cx.check(False, label + ": nothing raised")

    def stub(self, name, args, shape, numeric=None, pos=False):
        """Opaque function of its arguments (congruence decided by the solver)."""
        A = self.arr
        flat = []
        for a in args:
            flat.extend(A._num(e) for e in A.base(a).flat)

        def setup(atoms):
            for x in atoms:
                x.pos = x.pos or pos
        n = int(np.prod(shape)) if shape else 1
        if numeric is None:
            def numeric(v):
                return stub_values(name, n, pos, v)
        outs = self.cx.uf(name, flat, n, numeric, setup=setup)
        if not shape:
            return outs[0]
        o = np.empty(n, dtype=object)
        for i in range(n):
            o[i] = outs[i]
        return A.wrap(o.reshape(shape))

    def derivs(self, f, xs):
        """Partial derivatives of the scalar f(list) at the input variables xs."""
        v = self.S.Sym.of(self.arr.base(f(list(xs))).item())
        return [self.S.derivative(v, next(iter(x.p))[0][0]) for x in xs]

    def exact_inverse(self):
        """Pseudo-inverses of invertible matrices are expanded by cofactors (one path per singular matrix)."""
        self.cx.exact_inverse = True

    def warned(self):
        return list(self.cx.warned)

    def reset_warnings(self):
        del self.cx.warned[:]

    def override(self, target, value):
        """Replace an attribute of a (symbolically loaded or shim) module for this run."""
        m, _, a = target.rpartition(".")
        mod = self.L.shims.get(m)
        if mod is None and not m.startswith("regain"):
            from .shims import Shim, real_or_none
            mod = self.L.shims[m] = Shim(m, real_or_none(m))
        mod = mod or self.L.load(m, explicit=True)
        setattr(mod, a, value)
        self.cx.notes.setdefault("overrides", []).append(target)

    def log2pi(self):
        return self.S.slog(self.S.var("PI2", pos=True))


class HConc(HBase):
    def use_known(self):
        pass

    def __init__(self, cfg, values, rng):
        super().__init__(cfg)
        self.values = values
        self.rng = rng
        self.used = {}
        self.failed = []
        self.nchecks = 0
        self.observed = []
        self._w = []
        self._patched = []

    def mod(self, name):
        return importlib.import_module(name)

    def lit(self, x):
        return float(x)

    def empty(self, shape):
        return np.zeros(shape)

    def matmul(self, a, b):
        return np.matmul(a, b)

    def real(self, name, pos=False, nonneg=False):
        if name in self.used:
            return self.used[name]
        v = self.values.get(name)
        if v is None:
            style = self.rng.randint(4)
            if pos or nonneg:
                v = float(np.exp(self.rng.uniform(-2.5, 1.5)))
                if nonneg and not pos and self.rng.rand() < 0.1:
                    v = 0.0
            elif style == 0:
                v = float(self.rng.randint(-3, 4))
            else:
                v = float(self.rng.randn() * (1.0 if style < 3 else 3.0))
        self.used[name] = float(v)
        return float(v)

    def unit(self, name):
        if name not in self.used and self.values.get(name) is None:
            self.used[name] = float(self.rng.uniform(0.01, 0.99))
        v = self.real(name)
        self.assume(0 < v < 1)
        return v

    def boolean(self, name):
        return self.real(name) > 0
    flag = boolean

    def iterations(self, n, name=None):
        if name is None:
            return n
        self.iter_index = None
        self.iter_n = int(self.values.get("__max_iter__", n))
        return self.iter_n

    def assume(self, c):
        if not np.all(c):
            raise SkipSample()

    def _fail(self, label, msg):
        self.failed.append((label, msg))

    def check(self, c, label):
        self.nchecks += 1
        if not np.all(c):
            self._fail(label, "condition is false")

    def leq(self, a, b, label, tol=1e-6):
        self.nchecks += 1
        a, b = np.asarray(a, float), np.asarray(b, float)
        tol = 1e-6 if tol is None else tol
        if not np.all(a <= b + tol * (1 + np.abs(b))):
            self._fail(label, "%s <= %s does not hold" % (_short(a), _short(b)))

    def equal(self, a, b, label, tol=None):
        self.nchecks += 1
        if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
            if not (a is b or a == b):
                self._fail(label, "got %r, expected %r" % (a, b))
            return
        try:
            x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        except (TypeError, ValueError) as e:
            self._fail(label, "not numeric: %r / %r (%s)" % (a, b, e))
            return
        self.observed.append((label, x))
        if x.shape != y.shape:
            self._fail(label, "shape %s, expected %s" % (x.shape, y.shape))
            return
        tol = 1e-6 if tol is None else tol
        with np.errstate(all="ignore"):
            fin = np.isfinite(y)
            scale = np.max(np.abs(y[fin])) if fin.any() else 1.0
            ok = (x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= tol * (1e-3 + np.abs(y) + 0.01 * scale))
        if not np.all(ok):
            self._fail(label, "got %s, expected %s" % (_short(x), _short(y)))

    def finite(self, a, label):
        self.nchecks += 1
        if not np.all(np.isfinite(np.asarray(a, dtype=float))):
            self._fail(label, "non-finite value in %s" % _short(a))

    def raises(self, exc, fn, label):
        self.nchecks += 1
        try:
            fn()
        except Exception as e:
            if not isinstance(e, exc):
                self._fail(label, "raised %s: %s" % (type(e).__name__, e))
            return
        self._fail(label, "nothing raised")

    def stub(self, name, args, shape, numeric=None, pos=False):
        flat = []
        for a in args:
            flat.extend(np.asarray(a, float).ravel().tolist())
        if numeric is not None:
            out = numeric(flat)
        else:
            out = stub_values(name, int(np.prod(shape)) if shape else 1, pos, flat)
        if not shape:
            return float(out[0])
        return np.array(out, dtype=float).reshape(shape)

    def derivs(self, f, xs):
        out = []
        for k, x in enumerate(xs):
            s = 1e-5 * max(1.0, abs(x))
            y, z = list(xs), list(xs)
            y[k], z[k] = x + s, x - s
            out.append(float((f(y) - f(z)) / (2 * s)))
        return out

    def exact_inverse(self):
        pass

    def warned(self):
        return [str(w.message) for w in self._w]

    def reset_warnings(self):
        del self._w[:]

    def override(self, target, value):
        m, _, a = target.rpartition(".")
        mod = importlib.import_module(m)
        self._patched.append((mod, a, getattr(mod, a, None), hasattr(mod, a)))
        setattr(mod, a, value)

    def unpatch(self):
        for mod, a, v, had in reversed(self._patched):
            if had:
                setattr(mod, a, v)
            else:
                delattr(mod, a)
        self._patched = []

    def log2pi(self):
        return math.log(2 * math.pi)


def _short(x):
    s = np.array2string(np.asarray(x), precision=6, threshold=40).replace("\n", "")
    return s if len(s) < 400 else s[:400] + "..."


# --------------------------------------------------------------------------
def load_real(path, name):
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


def harness_gap(e):
    """The harness names something internal that the tree no longer has (renamed or moved helper, private
    signature): no verdict, never a violation."""
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    f = tb.tb_frame.f_code.co_filename
    if not (f.startswith(os.path.join(VERIF, "checks")) or f.startswith(os.path.join(VERIF, "vf"))
            or "importlib" in f):
        return False
    msg = str(e)
    if isinstance(e, ImportError):
        return "regain" in msg
    if isinstance(e, AttributeError):
        return "module 'regain" in msg
    if isinstance(e, TypeError):
        import re
        m = re.match(r"(?:[\w.]*\.)?(\w+)\(\) (got an unexpected|missing|takes)", msg)
        return bool(m) and m.group(1).startswith("_") and not m.group(1).startswith("__")
    return False


def run_concrete(fn, cfg, values, seed):
    """One concrete execution of a harness on the real code.  Returns
    (status, failures, HConc): status in ok / fail / skip / error."""
    rng = np.random.RandomState(seed)
    h = HConc(cfg, values, rng)
    try:
        with warnings.catch_warnings(record=True) as w, np.errstate(all="ignore"):
            warnings.simplefilter("always")
            h._w = w
            fn(h, **cfg)
    except SkipSample:
        return "skip", [], h
    except Exception as e:
        if h.failed:
            return "fail", h.failed, h
        tb = traceback.format_exc()
        if harness_gap(e):
            return "gap", [("harness", "%s: %s" % (type(e).__name__, e))], h
        return "error", [("exception", "%s: %s" % (type(e).__name__, e)), ("traceback", tb[-1500:])], h
    finally:
        h.unpatch()
    if h.failed:
        return "fail", h.failed, h
    return "ok", [], h
