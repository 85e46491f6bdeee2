"""Arbitrary outcomes of numpy.random (symbolic or forked draws)."""
import numpy as np


class Draws(object):
    """Installs arbitrary draws for the functions of numpy.random; mvn and poisson record their parameters."""

    def __init__(self, h):
        self.h = h
        self.n = 0
        self.normals = []
        self.counts = []
        self.gauss = []         # (loc, scale, value): the value is arbitrary, the parameters are recorded
        self.lognormals = []
        self.uniforms = []
        for f in ("rand", "randn", "randint", "permutation", "shuffle", "choice", "uniform", "multivariate_normal",
                  "poisson", "seed", "normal", "lognormal"):
            h.override("numpy.random." + f, getattr(self, f))

    def _name(self, k):
        self.n += 1
        return "%s%d" % (k, self.n)

    def _fill(self, shape, f):
        if shape == ():
            return f("")
        a = self.h.empty(shape)
        for ix in np.ndindex(*shape):
            a[ix] = f("_".join(str(i) for i in ix))
        return a

    @staticmethod
    def _shape(size):
        if size is None:
            return ()
        return (int(size),) if not isinstance(size, (tuple, list)) else tuple(int(s) for s in size)

    def seed(self, *a):
        pass

    def rand(self, *shape):
        n = self._name("u")
        return self._fill(shape, lambda s: self.h.unit(n + "_" + s))

    def uniform(self, low=0.0, high=1.0, size=None):
        n = self._name("v")
        x = self._fill(self._shape(size), lambda s: low + (high - low) * self.h.unit(n + "_" + s))
        self.uniforms.append(x)
        return x

    def randn(self, *shape):
        n = self._name("z")
        return self._fill(shape, lambda s: self.h.real(n + "_" + s))

    def normal(self, loc=0.0, scale=1.0, size=None):
        n = self._name("g")
        x = self._fill(self._shape(size), lambda s: self.h.real(n + "_" + s))
        self.gauss.append((loc, scale, x))
        return x

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        n = self._name("ln")
        x = self._fill(self._shape(size), lambda s: self.h.pos(n + "_" + s))
        self.lognormals.append((mean, sigma, x))
        return x

    def randint(self, low, high=None, size=None, **k):
        if high is None:
            low, high = 0, low
        n = self._name("i")
        shape = self._shape(size)
        if shape == ():
            return low + self.h.below(n, high - low)
        a = np.zeros(shape, dtype=int)
        for ix in np.ndindex(*shape):
            a[ix] = low + self.h.below(n + "_" + "_".join(map(str, ix)), high - low)
        return a

    def _order(self, k, n, m):
        """First m of an arbitrary order of range(n)."""
        rest, out = list(range(n)), []
        for j in range(m):
            out.append(rest.pop(self.h.below("%s_%d" % (k, j), len(rest))))
        return out, rest

    def permutation(self, x):
        n = x if isinstance(x, (int, np.integer)) else len(x)
        o, _ = self._order(self._name("p"), int(n), int(n))
        return np.array(o, dtype=int) if isinstance(x, (int, np.integer)) else np.asarray(x)[o]

    def shuffle(self, x):
        x[:] = np.asarray(x)[self._order(self._name("s"), len(x), len(x))[0]]

    def choice(self, a, size=None, replace=True, p=None):
        a = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        ok = [i for i in range(len(a)) if p is None or p[i] > 0]
        n = self._name("c")
        shape = self._shape(size)
        if shape == ():
            return a[ok[self.h.below(n, len(ok))]]
        m = int(np.prod(shape))
        if replace:
            ix = [ok[self.h.below("%s_%d" % (n, j), len(ok))] for j in range(m)]
        else:
            ix = [ok[j] for j in self._order(n, len(ok), m)[0]]
        vals = [a[i] for i in ix]
        return np.array(vals).reshape(shape)

    def multivariate_normal(self, mean, cov, size=None, **k):
        d = len(mean)
        n = self._name("x")
        x = self._fill(self._shape(size) + (d,), lambda s: self.h.real(n + "_" + s))
        self.normals.append((mean, cov, x))
        return x

    def poisson(self, lam=1.0, size=None):
        n = self._name("q")
        x = self._fill(self._shape(size), lambda s: self.h.nonneg(n + "_" + s))
        if not hasattr(self, "first"):
            self.first = [list(r) for r in x] if np.ndim(x) == 2 else None     # later updates may be in place
        self.counts.append((lam, x))
        return x
