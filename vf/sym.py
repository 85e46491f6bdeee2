"""Symbolic reals with a canonical (Laurent-)polynomial normal form over z3.

A ``Sym`` is a polynomial with rational coefficients over *atoms*: input
variables, outputs of uninterpreted functions, square roots, inverses,
exp/log terms and 0/1 indicators of boolean conditions (so that abs, max, sign,
where ... all become piecewise polynomials).  The normal form is only a
rewriting step that makes equal terms look equal; what holds is decided by z3
(see solve.py).
"""
import math
import numbers
from fractions import Fraction

import numpy as np

BIG = 4000  # products with more monomials than this go through definition atoms


class Unsupported(Exception):
    """The engine cannot model an operation (inconclusive, never an alarm)."""


# --------------------------------------------------------------------------
# atoms
class Atom(object):
    __slots__ = ("id", "kind", "data", "pos", "nonneg", "sq", "info")

    def __init__(self, id, kind, data):
        self.id = id
        self.kind = kind
        self.data = data
        self.pos = False      # known > 0
        self.nonneg = False   # known >= 0
        self.sq = None        # polynomial replacing atom**2
        self.info = None

    def __repr__(self):
        return name_of(self)


ATOMS = []
_TABLE = {}


def reset():
    del ATOMS[:]
    _TABLE.clear()
    PRODS.clear()


def atom(kind, data):
    key = (kind, data)
    a = _TABLE.get(key)
    if a is None:
        a = Atom(len(ATOMS), kind, data)
        ATOMS.append(a)
        _TABLE[key] = a
    return a


def name_of(a):
    if a.kind == "var":
        return a.data
    if a.kind == "uf":
        return "%s!%d" % (a.data[0], a.id)
    if a.kind in ("sqrt", "inv", "def"):
        return "%s(%s)" % (a.kind, fmt(dict(a.data)))
    if a.kind == "fn":
        return "%s(%s)" % (a.data[0], fmt(dict(a.data[1])))
    if a.kind == "ind":
        return "[%s]" % fmtb(a.data)
    return "%s%r" % (a.kind, a.data)


def fmt(p):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items()):
        t = "*".join(
            name_of(ATOMS[i]) + ("" if e == 1 else "^%d" % e) for i, e in m)
        out.append(("%s*%s" % (c, t)) if t else str(c))
    s = " + ".join(out)
    return s if len(s) < 4000 else s[:4000] + "..."


def fmtb(b):
    if b is True or b is False:
        return str(b)
    if b[0] == "cmp":
        return "%s %s 0" % (fmt(dict(b[2])), b[1])
    if b[0] == "not":
        return "!(%s)" % fmtb(b[1])
    return "(" + (" %s " % b[0]).join(fmtb(x) for x in b[1]) + ")"


# --------------------------------------------------------------------------
# polynomials: dict monomial -> int or Fraction ; monomial = tuple((atom id, exp))
ONE = ()
_F0 = 0
_F1 = 1


def _q(c):
    """Rational coefficient in its cheapest form (int when integral; never divide coefficients with /)."""
    return c.numerator if type(c) is Fraction and c.denominator == 1 else c


def const(c):
    c = to_frac(c)
    return {ONE: c} if c else {}


def to_frac(x):
    if isinstance(x, Fraction):
        return _q(x)
    if isinstance(x, (bool, np.bool_, int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x) or math.isinf(x):
            raise Unsupported("non-finite constant")
        f = Fraction(x).limit_denominator(10 ** 6)
        if abs(f - Fraction(x)) <= Fraction(abs(x)) * Fraction(4, 10 ** 16):
            return _q(f)
        return _q(Fraction(repr(x)))
    raise Unsupported("constant %r" % (x,))


def is_const(p):
    return not p or (len(p) == 1 and ONE in p)


def cval(p):
    return p.get(ONE, _F0)


def padd(p, q):
    if not p:
        return q
    if not q:
        return p
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def pscale(p, c):
    if not c:
        return {}
    if c == 1:
        return p
    c = _q(c)
    if type(c) is int:
        return {m: v * c for m, v in p.items()}
    return {m: _q(v * c) for m, v in p.items()}


def psub(p, q):
    return padd(p, pscale(q, -1))


PRODS = {}


def _mono_mul(m1, m2):
    """Product of monomials -> (monomial, extra polynomial or None)."""
    key = (m1, m2)
    r = PRODS.get(key)
    if r is not None:
        return r
    d = dict(m1)
    for i, e in m2:
        d[i] = d.get(i, 0) + e
    extra = None
    inds = {}
    for i in list(d):
        e = d[i]
        if e == 0:
            del d[i]
            continue
        a = ATOMS[i]
        if a.kind == "ind":
            if e < 0:
                raise Unsupported("negative power of indicator")
            d[i] = 1
            b = a.data
            if b[0] == "cmp":
                inds.setdefault(b[2], []).append((b[1], i))
        elif a.sq is not None and e not in (0, 1, -1):
            # keep the exponent in {0, 1, -1}
            k, rem = divmod(abs(e), 2)
            f = ppow(a.sq, k) if e > 0 else ppow(pinv(a.sq), k)
            extra = f if extra is None else pmul(extra, f)
            if rem:
                d[i] = 1 if e > 0 else -1
            else:
                del d[i]
        elif a.kind == "inv" and e < 0:
            f = ppow(dict(a.data), -e)
            extra = f if extra is None else pmul(extra, f)
            del d[i]
    if len(d) > 1:
        for i in list(d):
            # sqrt(r) / r = sqrt(r)**-1
            if d.get(i) == 1 and ATOMS[i].kind == "sqrt":
                j, c = _inv_of_radicand(ATOMS[i])
                if j is not None and d.get(j, 0) > 0:
                    d[i] = -1
                    d[j] -= 1
                    if not d[j]:
                        del d[j]
                    extra = pscale(extra, c) if extra is not None else {ONE: c}
    for pk, lst in inds.items():
        if len(lst) > 1:
            rels = {r_: i_ for r_, i_ in lst}
            if ">" in rels and ">=" in rels:
                d.pop(rels[">="], None)
    m = tuple(sorted(d.items()))
    r = (m, extra)
    if len(PRODS) < 2000000:
        PRODS[key] = r
    return r


def _inv_of_radicand(a):
    """(id, c): c / r is the inverse atom id, for a sqrt atom of the radicand r with several terms."""
    if a.info is None:
        a.info = (None, None)
        if len(a.sq) > 1:
            v = pinv(a.sq)
            if len(v) == 1:
                (m, c), = v.items()
                if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "inv":
                    a.info = (m[0][0], _q(Fraction(1) / c))
    return a.info


def pmul(p, q):
    if not p or not q:
        return {}
    if is_const(p):
        return pscale(q, cval(p))
    if is_const(q):
        return pscale(p, cval(q))
    if len(p) * len(q) > BIG:
        if len(p) > 12:
            p = pdef(p)
        if len(q) > 12 and len(p) * len(q) > BIG // 4:
            q = pdef(q)
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m, extra = _mono_mul(m1, m2)
            c = c1 * c2
            if extra is None:
                v = r.get(m)
                if v is None:
                    r[m] = c
                else:
                    v = v + c
                    if v:
                        r[m] = v
                    else:
                        del r[m]
            else:
                r = padd(r, pscale(pmul({m: _F1}, extra), c))
                if r is p or r is q or r is extra:
                    r = dict(r)
    return r


def ppow(p, n):
    r = {ONE: _F1}
    for _ in range(n):
        r = pmul(r, p)
    return r


def pkey(p):
    return tuple(sorted(p.items()))


def content(p):
    """(c, q): p = c*q, c != 0 rational, q integer-primitive, leading coeff > 0."""
    num = 0
    den = 1
    for v in p.values():
        num = math.gcd(num, v.numerator)
        den = den * v.denominator // math.gcd(den, v.denominator)
    c = Fraction(num, den)
    lead = p[max(p)]
    if lead < 0:
        c = -c
    return _q(c), {m: int(v / c) for m, v in p.items()}


def pdef(p):
    if len(p) == 1:
        return p
    c, q = content(p)
    a = atom("def", pkey(q))
    return {((a.id, 1),): c}


def expand_def(p):
    """Inline definition atoms (may be large)."""
    while True:
        ids = [i for m in p for i, e in m if ATOMS[i].kind == "def"]
        if not ids:
            return p
        i = max(ids)
        q = dict(ATOMS[i].data)
        r = {}
        for m, c in p.items():
            d = dict(m)
            e = d.pop(i, 0)
            mm = tuple(sorted(d.items()))
            t = {mm: c}
            if e < 0:
                raise Unsupported("negative power of definition")
            for _ in range(e):
                t = pmul_raw(t, q)
            r = padd(r, t)
        p = r


def pmul_raw(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m, extra = _mono_mul(m1, m2)
            t = {m: c1 * c2} if extra is None else pscale(pmul({m: _F1}, extra), c1 * c2)
            r = padd(r, t)
    return r


def _pdivexact(p, q):
    """Exact division p / q, or None."""
    if any(e < 0 for m in p for _, e in m) or any(e < 0 for m in q for _, e in m):
        return None
    for m in q:
        for i, _ in m:
            if ATOMS[i].kind in ("ind", "inv") or ATOMS[i].sq is not None:
                return None
    if len(p) * len(q) > 400:
        return None
    order = lambda m: sorted(((i, e) for i, e in m), reverse=True)
    lt = max(q, key=order)
    ltd = dict(lt)
    quot = {}
    rem = dict(p)
    steps = 0
    while rem:
        steps += 1
        if steps > 200:
            return None
        m = max(rem, key=order)
        d = dict(m)
        for i, e in ltd.items():
            if d.get(i, 0) < e:
                return None
            d[i] = d[i] - e
            if d[i] == 0:
                del d[i]
        mm = tuple(sorted(d.items()))
        c = _q(Fraction(rem[m]) / q[lt])
        quot = padd(quot, {mm: c})
        rem = psub(rem, pmul({mm: c}, q))
    return quot


def pinv(q):
    if not q:
        raise ZeroDivisionError
    if len(q) == 1:
        (m, c), = q.items()
        if all(ATOMS[i].kind != "ind" for i, _ in m):
            out = {ONE: _q(Fraction(1) / c)}
            for i, e in m:
                out = pmul(out, _pow_atom(i, -e))
            return out
    c, qq = content(q)
    # pull out the monomial common to all terms
    common = None
    for m in qq:
        d = {i: e for i, e in m if ATOMS[i].kind != "ind"}
        if common is None:
            common = d
        else:
            common = {i: min(e, d.get(i, 0)) for i, e in common.items() if i in d or e < 0}
            for i, e in d.items():
                if e < 0 and i not in common:
                    common[i] = e
        # negative exponents of atoms absent elsewhere
    neg = {}
    for m in qq:
        for i, e in m:
            if e < 0:
                neg[i] = min(neg.get(i, 0), e)
    common = {i: e for i, e in (common or {}).items() if e > 0}
    for i, e in neg.items():
        common[i] = e
    common = {i: e for i, e in common.items() if ATOMS[i].kind != "inv"}
    out = {ONE: _q(Fraction(1) / c)}
    if common:
        inv_m = {ONE: _F1}
        for i, e in common.items():
            inv_m = pmul(inv_m, _pow_atom(i, -e))
        q2 = pmul(qq, inv_m)
        if len(q2) == 1 or q2 != qq:
            return pmul(pmul(out, inv_m), pinv(q2)) if len(q2) > 1 else pmul(pmul(out, inv_m), pinv(q2))
    a = atom("inv", pkey(qq))
    if all(ATOMS[i].pos for m in qq for i, e in m) and all(v > 0 for v in qq.values()):
        a.pos = True
    return pmul(out, {((a.id, 1),): _F1})


def _pow_atom(i, e):
    a = ATOMS[i]
    if a.kind == "inv" and e < 0:
        return ppow(dict(a.data), -e)
    if a.kind == "ind":
        raise Unsupported("power of indicator")
    m, extra = _mono_mul(((i, e),), ONE)
    p = {m: _F1}
    return p if extra is None else pmul(p, extra)


def pdiv(p, q):
    if is_const(q):
        c = cval(q)
        if not c:
            raise ZeroDivisionError("division by symbolic zero")
        return pscale(p, Fraction(1) / c)
    if not p:
        return {}
    if len(q) > 1 and not is_const(p):
        r = _pdivexact(p, q)
        if r is not None:
            return r
    return pmul(p, pinv(q))


def known_sign(p):
    """+1 if known > 0, 0.5 if known >= 0, -1/-0.5 likewise, None if unknown."""
    if is_const(p):
        c = cval(p)
        return 1 if c > 0 else (-1 if c < 0 else 0)
    pos = neg = True
    strict = False
    for m, c in p.items():
        s = True
        st = True
        for i, e in m:
            a = ATOMS[i]
            if a.pos:
                continue
            if a.nonneg or a.kind == "ind":
                st = False
                continue
            if e % 2 == 0:
                st = False
                continue
            s = False
            break
        if not s:
            return None
        strict = strict or st
        if c > 0:
            neg = False
        else:
            pos = False
    if pos:
        return 1 if strict else 0.5
    if neg:
        return -1 if strict else -0.5
    return None


# --------------------------------------------------------------------------
# booleans (canonical tuples)
def b_not(b):
    if b is True:
        return False
    if b is False:
        return True
    if b[0] == "not":
        return b[1]
    return ("not", b)


def _b_nary(op, xs):
    unit = op == "and"
    out = set()
    for x in xs:
        if x is unit:
            continue
        if x is (not unit):
            return not unit
        if x[0] == op:
            out.update(x[1])
        else:
            out.add(x)
    for x in out:
        if b_not(x) in out:
            return not unit
    if not out:
        return unit
    if len(out) == 1:
        return next(iter(out))
    return (op, tuple(sorted(out, key=repr)))


def b_and(*xs):
    return _b_nary("and", xs)


def b_or(*xs):
    return _b_nary("or", xs)


def _pos_normal(p):
    """Multiply/divide by atoms known to be positive; primitive; sign of leading."""
    d = None
    for m in p:
        md = {i: e for i, e in m if ATOMS[i].pos and ATOMS[i].kind != "ind"}
        if d is None:
            d = md
        else:
            for i in list(d):
                d[i] = min(d[i], md.get(i, 0))
            for i, e in md.items():
                if i not in d and e < 0:
                    d[i] = e
    f = {ONE: _F1}
    strip = {}
    for i, e in (d or {}).items():
        if e:
            if ATOMS[i].kind == "inv":
                strip[i] = e
            else:
                f = pmul(f, {((i, -e),): _F1})
    if strip:
        r = {}
        for m, c in p.items():
            r[tuple((i, e - strip.get(i, 0)) for i, e in m if e != strip.get(i, 0))] = c
        p = r
    if f != {ONE: _F1}:
        p = pmul(p, f)
    # clear positive inverses that appear in some monomials only
    for _ in range(4):
        ids = {i: max(0, e) for m in p for i, e in m if ATOMS[i].kind == "inv" and ATOMS[i].pos}
        if not ids or len(p) > 60:
            break
        i = max(ids)
        p = clear_inv(p, i)
        if not p:
            return 1, {}
    c, q = content(p)
    return (1 if c > 0 else -1), q


def clear_inv(p, i):
    q = dict(ATOMS[i].data)
    mx = max(dict(m).get(i, 0) for m in p)
    r = {}
    for m, c in p.items():
        d = dict(m)
        e = d.pop(i, 0)
        t = {tuple(sorted(d.items())): c}
        for _ in range(mx - e):
            t = pmul(t, q)
        r = padd(r, t)
    return r


def _sign_of(q):
    """d if q = [d > 0] - [d < 0] (the sign function), else None."""
    if len(q) != 2:
        return None
    neg = pos = None
    for m, c in q.items():
        if len(m) != 1 or m[0][1] != 1 or ATOMS[m[0][0]].kind != "ind":
            return None
        if c == 1:
            pos = ATOMS[m[0][0]].data
        elif c == -1:
            neg = ATOMS[m[0][0]].data
    if pos is None or neg is None:
        return None
    for x, y, f in ((pos, neg, 1), (neg, pos, -1)):
        if x[0] == "cmp" and x[1] == ">" and y[0] == "not" and y[1] == ("cmp", ">=", x[2]):
            d = dict(x[2])
            return d if f > 0 else pscale(d, -_F1)
    return None


def b_cmp(rel, p):
    """Canonical boolean for  p rel 0, rel in > >= ==."""
    if is_const(p):
        c = cval(p)
        return {">": c > 0, ">=": c >= 0, "==": c == 0}[rel]
    s = known_sign(p)
    if s is not None:
        if rel == ">":
            if s == 1:
                return True
            if s < 0:
                return False
        elif rel == ">=":
            if s > 0:
                return True
            if s == -1:
                return False
        elif s in (1, -1):
            return False
    sg, q = _pos_normal(p)
    if is_const(q):
        c = cval(q) * sg
        return {">": c > 0, ">=": c >= 0, "==": c == 0}[rel]
    # pure indicator polynomials over one indicator are boolean formulas
    if all(len(m) <= 1 and all(ATOMS[i].kind == "ind" for i, _ in m) for m in q):
        inds = [m[0][0] for m in q if m]
        if len(inds) == 1:
            c0 = q.get(ONE, _F0) * sg
            c1 = c0 + q[((inds[0], 1),)] * sg
            f = {">": lambda v: v > 0, ">=": lambda v: v >= 0, "==": lambda v: v == 0}[rel]
            b = ATOMS[inds[0]].data
            return b_or(b_and(b, f(c1)), b_and(b_not(b), f(c0)))
    d = _sign_of(q)
    if d is not None:
        return b_cmp(rel, pscale(d, _F1 if sg > 0 else -_F1))
    if rel == "==":
        return ("cmp", "==", pkey(q))
    if sg > 0:
        return ("cmp", rel, pkey(q))
    return ("not", ("cmp", ">=" if rel == ">" else ">", pkey(q)))


def ind(b):
    """Indicator polynomial of a boolean."""
    if b is True:
        return {ONE: _F1}
    if b is False:
        return {}
    if b[0] == "not":
        return psub({ONE: _F1}, ind(b[1]))
    if b[0] == "and":
        r = {ONE: _F1}
        for x in b[1]:
            r = pmul(r, ind(x))
        return r
    if b[0] == "or":
        r = {ONE: _F1}
        for x in b[1]:
            r = pmul(r, ind(b_not(x)))
        return psub({ONE: _F1}, r)
    c = CTX[0]
    if c is not None and c.use_known:
        k = c.known.get(b)
        if k is not None:
            return {ONE: _F1} if k else {}
    a = atom("ind", b)
    return {((a.id, 1),): _F1}


# --------------------------------------------------------------------------
CTX = [None]  # current path context (engine.Path)


def ctx():
    if CTX[0] is None:
        raise Unsupported("symbolic decision outside of an exploration")
    return CTX[0]


class SymBool(object):
    __slots__ = ("b",)
    __array_priority__ = 1e6

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        if self.b is True or self.b is False:
            return self.b
        return ctx().decide(self.b)

    def __repr__(self):
        return "SymBool(%s)" % fmtb(self.b)

    def __and__(self, o):
        return mkbool(b_and(self.b, to_b(o))) if not isinstance(o, np.ndarray) else NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(b_or(self.b, to_b(o))) if not isinstance(o, np.ndarray) else NotImplemented
    __ror__ = __or__

    def __invert__(self):
        return mkbool(b_not(self.b))

    def __xor__(self, o):
        o = to_b(o)
        return mkbool(b_or(b_and(self.b, b_not(o)), b_and(b_not(self.b), o)))
    __rxor__ = __xor__

    def sym(self):
        return Sym(ind(self.b))

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, (SymBool, bool, np.bool_)):
            o = to_b(o)
            return mkbool(b_or(b_and(self.b, o), b_and(b_not(self.b), b_not(o))))
        return self.sym() == o

    def __ne__(self, o):
        r = self == o
        return r if r is NotImplemented else b_inv(r)

    def __hash__(self):
        return hash(self.b)

    def __float__(self):
        return float(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def _arith(name):
        def f(self, o):
            return getattr(self.sym(), name)(o)
        return f

    for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "pow",
               "lt", "le", "gt", "ge", "neg", "abs"):
        if _n in ("neg", "abs"):
            continue
        locals()["__%s__" % _n] = _arith("__%s__" % _n)
    del _n

    def __neg__(self):
        return -self.sym()

    def __abs__(self):
        return self.sym()

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .arr import dispatch
        return dispatch(ufunc, method, inputs, kw)

    # numpy object-loop protocol
    def logical_not(self):
        return ~self


def b_inv(r):
    return ~r if isinstance(r, SymBool) else (not r)


def to_b(o):
    if isinstance(o, SymBool):
        return o.b
    if isinstance(o, (bool, np.bool_)):
        return bool(o)
    if isinstance(o, Sym):
        return b_not(b_cmp("==", o.p))
    if isinstance(o, numbers.Number):
        return bool(o)
    raise Unsupported("boolean from %r" % (type(o),))


def mkbool(b):
    if b is True or b is False:
        return b
    return SymBool(b)


def _special(x):
    return isinstance(x, (float, np.floating)) and (math.isnan(x) or math.isinf(x))


class Sym(object):
    __slots__ = ("p",)
    __array_priority__ = 1e6

    def __init__(self, p):
        self.p = p

    # -- construction helpers
    @staticmethod
    def of(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return x.sym()
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return Sym.of(x[()])
        return Sym(const(x))

    def __repr__(self):
        return "Sym(%s)" % fmt(self.p)

    def isconst(self):
        return is_const(self.p)

    def const(self):
        return Fraction(cval(self.p))

    # -- arithmetic
    def __add__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if _special(o):
            return float(o)
        return Sym(padd(self.p, Sym.of(o).p))
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if _special(o):
            return -float(o)
        return Sym(psub(self.p, Sym.of(o).p))

    def __rsub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if _special(o):
            return float(o)
        return Sym(psub(Sym.of(o).p, self.p))

    def __mul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if _special(o):
            return self._mul_special(float(o))
        return Sym(pmul(self.p, Sym.of(o).p))
    __rmul__ = __mul__

    def _mul_special(self, o):
        if math.isnan(o):
            return o
        c = CTX[0]
        if known_sign(self.p) == 0.5 and (c is None or not c.div_fork):
            return o     # 0 * inf (nan in numpy) is left out, like zero denominators
        if bool(self > 0):
            return o
        if bool(self < 0):
            return -o
        return float("nan")

    def __truediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if _special(o):
            return float("nan") if math.isnan(o) else Sym({})
        o = Sym.of(o)
        return sdiv(self, o)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if _special(o):
            if math.isnan(o):
                return float(o)
            return self._mul_special(float(o))
        return sdiv(Sym.of(o), self)

    def __floordiv__(self, o):
        if self.isconst() and Sym.of(o).isconst():
            return Sym(const(self.const() // Sym.of(o).const()))
        raise Unsupported("floor division")

    def __rfloordiv__(self, o):
        return Sym.of(o).__floordiv__(self)

    def __mod__(self, o):
        if self.isconst() and Sym.of(o).isconst():
            return Sym(const(self.const() % Sym.of(o).const()))
        return ctx().modulo(self, Sym.of(o))

    def __neg__(self):
        return Sym(pscale(self.p, -1))

    def __pos__(self):
        return self

    def __abs__(self):
        return sabs(self)

    def __pow__(self, n):
        return spow(self, n)

    def __rpow__(self, o):
        o = Sym.of(o)
        if self.isconst():
            return spow(o, self)
        # base ** symbolic exponent
        return sexp(self * slog(o))

    def __float__(self):
        if self.isconst():
            return float(self.const())
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.isconst():
            return int(self.const())
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        if self.isconst() and self.const().denominator == 1:
            return int(self.const())
        raise Unsupported("symbolic index")

    def __round__(self, n=0):
        if self.isconst():
            return Sym(const(round(self.const(), n)))
        raise Unsupported("round")

    def __format__(self, spec):
        return repr(self)

    # -- comparisons
    def __lt__(self, o):
        return _cmp(">", o, self)

    def __gt__(self, o):
        return _cmp(">", self, o)

    def __le__(self, o):
        return _cmp(">=", o, self)

    def __ge__(self, o):
        return _cmp(">=", self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if not isinstance(o, (numbers.Number, Sym, SymBool, np.generic, np.ndarray)):
            return False
        return _cmp("==", self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_inv(r)

    def __hash__(self):
        if self.isconst():
            return hash(self.const())
        return hash(pkey(self.p))

    def __bool__(self):
        return bool(self != 0)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .arr import dispatch
        return dispatch(ufunc, method, inputs, kw)

    # numpy scalar look-alikes
    def sqrt(self):
        return ssqrt(self)

    def exp(self):
        return sexp(self)

    def log(self):
        return slog(self)

    def conjugate(self):
        return self
    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def item(self):
        return self

    def copy(self):
        return self

    def sum(self, axis=None, **k):
        return self

    def mean(self, axis=None, **k):
        return self

    def max(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def astype(self, *a, **k):
        return self

    def any(self):
        return self != 0

    def all(self):
        return self != 0


numbers.Real.register(Sym)


def _infinite(x):
    """(condition, +-inf) for a value with an infinite term (a conditional log determinant), else None."""
    if not isinstance(x, Sym):
        return None
    inf = [(m, c) for m, c in x.p.items() if any(ATOMS[i].kind == "var" and ATOMS[i].data == "INF" for i, e in m)]
    if not inf:
        return None
    if len(inf) > 1:
        raise Unsupported("several infinite terms")
    m, c = inf[0]
    conds = []
    for i, e in m:
        a = ATOMS[i]
        if a.kind == "var" and a.data == "INF" and e == 1:
            continue
        if a.pos:
            continue
        if a.kind != "ind":
            raise Unsupported("infinite term of unknown sign")
        conds.append(a.data)
    return b_and(*conds) if conds else True, float("inf") if c > 0 else float("-inf")


def _cmp(rel, a, b):
    for x in (a, b):
        if isinstance(x, np.ndarray) and x.ndim:
            return NotImplemented
    if _special(a) or _special(b):
        fa = float(a) if _special(a) else 0.0
        fb = float(b) if _special(b) else 0.0
        res = {">": fa > fb, ">=": fa >= fb, "==": fa == fb}[rel]
        inf = _infinite(b if _special(a) else a)
        if inf is None:
            return res
        cond, v = inf
        fa, fb = (fa, v) if _special(a) else (v, fb)
        alt = {">": fa > fb, ">=": fa >= fb, "==": fa == fb}[rel]
        if alt == res:
            return res
        return mkbool(cond if alt else b_not(cond))
    return mkbool(b_cmp(rel, psub(Sym.of(a).p, Sym.of(b).p)))


def sdiv(a, b):
    c = CTX[0]
    if c is not None and c.div_fork and not is_const(b.p) and known_sign(b.p) not in (1, -1):
        if bool(b == 0):
            if bool(a == 0):
                return float("nan")
            return float("inf") if bool(a > 0) else float("-inf")
    if not b.p:
        if c is not None and c.div_fork:
            if bool(a == 0):
                return float("nan")
            return float("inf") if bool(a > 0) else float("-inf")
        raise Unsupported("division by zero")
    if c is not None:
        c.note_div(b)
    return Sym(pdiv(a.p, b.p))


def sabs(a):
    if isinstance(a, SymBool):
        return a.sym()
    s = known_sign(a.p)
    if s is not None:
        return a if s >= 0 else -a
    p = a.p if a.p[max(a.p)] > 0 else pscale(a.p, -1)   # |a| = |-a|
    d = None                                            # |m*q| = m*|q| for a common non-negative factor m
    for m in p:
        md = {i: e for i, e in m if e > 0 and (ATOMS[i].nonneg or ATOMS[i].pos) and ATOMS[i].kind == "var"}
        d = md if d is None else {i: min(e, md[i]) for i, e in d.items() if i in md}
    q = p
    if d:
        q = {}
        for m, c in p.items():
            q[tuple((i, e - d.get(i, 0)) for i, e in m if e != d.get(i, 0))] = c
    g = ind(b_cmp(">=", q))
    return Sym(psub(pscale(pmul(p, g), 2), p))


def ssign(a):
    s = known_sign(a.p)
    if s in (1, -1, 0):
        return Sym(const(s))
    return Sym(psub(ind(b_cmp(">", a.p)), ind(b_cmp(">", pscale(a.p, -1)))))


def smax(a, b):
    if _special(a) or _special(b):
        return _mm_special(a, b, True)
    a, b = Sym.of(a), Sym.of(b)
    d = psub(a.p, b.p)
    s = known_sign(d)
    if s is not None:
        return a if s >= 0 else b
    if d[max(d)] < 0:   # same indicator for either argument order
        a, b, d = b, a, psub(b.p, a.p)
    g = ind(b_cmp(">=", d))
    return Sym(padd(b.p, pmul(d, g)))


def smin(a, b):
    if _special(a) or _special(b):
        return _mm_special(a, b, False)
    a, b = Sym.of(a), Sym.of(b)
    d = psub(a.p, b.p)
    s = known_sign(d)
    if s is not None:
        return b if s >= 0 else a
    if d[max(d)] < 0:   # same indicator for either argument order
        a, b, d = b, a, psub(b.p, a.p)
    g = ind(b_cmp(">=", d))
    return Sym(psub(a.p, pmul(d, g)))


def _mm_special(a, b, mx):
    for x in (a, b):
        if _special(x) and math.isnan(x):
            return float("nan")
    if not _special(a):
        a, b = b, a
    # a is +-inf
    return a if (a > 0) == mx else b


def site(cond, x, y):
    """where(cond, x, y) on scalars."""
    if not isinstance(cond, SymBool):
        if isinstance(cond, Sym):
            cond = (cond != 0)
        if not isinstance(cond, SymBool):
            return x if cond else y
    if isinstance(x, (SymBool, bool, np.bool_)) and isinstance(y, (SymBool, bool, np.bool_)):
        return mkbool(b_or(b_and(cond.b, to_b(x)), b_and(b_not(cond.b), to_b(y))))
    if isinstance(x, str) or isinstance(y, str):
        return x if bool(cond) else y
    if _special(x) or _special(y):
        c = CTX[0]
        if (c is not None and c.div_fork) or any(_special(t) and math.isnan(t) for t in (x, y)):
            return x if bool(cond) else y
        # outside of the divide-by-zero harnesses +-inf is an opaque constant, the same one
        # wherever it appears (equalities proved this way hold for any value of it)
        x, y = (var("INF", pos=True) * (1 if t > 0 else -1) if _special(t) else t for t in (x, y))
    x, y = Sym.of(x), Sym.of(y)
    return Sym(padd(y.p, pmul(ind(cond.b), psub(x.p, y.p))))


def _isqrt_frac(c):
    """c = r^2 * s with s squarefree-ish integer; returns (r, s)."""
    n, d = c.numerator, c.denominator
    n = n * d  # sqrt(n/d) = sqrt(n*d)/d
    r = 1
    k = 2
    while k * k <= n and k < 2000:
        while n % (k * k) == 0:
            n //= k * k
            r *= k
        k += 1
    q = math.isqrt(n)
    if q * q == n:
        r *= q
        n = 1
    return _q(Fraction(r, d)), n


_TWOPI = to_frac(2 * math.pi)


def ssqrt(a):
    if isinstance(a, SymBool):
        return a.sym()
    if _special(a):
        return math.sqrt(a) if a > 0 else float("nan")
    a = Sym.of(a)
    p = a.p
    if is_const(p):
        c = cval(p)
        if c < 0:
            return float("nan")
        if c == 0:
            return Sym({})
        if c == _TWOPI:
            return ssqrt(var("PI2", pos=True))
        r, s = _isqrt_frac(c)
        if s == 1:
            return Sym(const(r))
        return Sym(pmul(const(r), _sqrt_atom(const(s))))
    c, q = content(p)
    if len(q) == 1:
        # single monomial: pull even powers out
        (m, v), = q.items()
        root = {ONE: _F1}
        rest = {ONE: _F1}
        for i, e in m:
            if ATOMS[i].kind == "ind":
                root = pmul(root, {((i, 1),): _F1})
                continue
            k, rem = divmod(e, 2)
            if k:
                if ATOMS[i].pos or ATOMS[i].nonneg:
                    root = pmul(root, _pow_atom(i, k))
                else:
                    root = pmul(root, sabs(Sym(_pow_atom(i, k))).p)
            if rem:
                rest = pmul(rest, {((i, 1),): _F1})
        if is_const(rest):
            if c > 0:
                return Sym(pmul(root, ssqrt(Sym(const(c))).p))
    ps = _perfect_square(q)
    if ps is not None and c > 0:
        return Sym(pmul(ssqrt(Sym(const(c))).p, sabs(Sym(ps)).p))
    # divide out positive square monomials
    f = {ONE: _F1}
    if len(q) > 1:
        common = None
        for m in q:
            d = dict(m)
            common = d if common is None else {i: min(e, d[i]) for i, e in common.items() if i in d}
        for i, e in (common or {}).items():
            if (ATOMS[i].pos or ATOMS[i].nonneg) and ATOMS[i].kind != "ind" and (e >= 2 or e <= -2):
                k = int(e / 2)
                f = pmul(f, _pow_atom(i, k))
                q = pmul(q, _pow_atom(i, -2 * k))
        # clear negative odd powers of positive atoms: sqrt(x/r) = sqrt(x*r)/r
        neg = {}
        for m in q:
            for i, e in m:
                if e < 0 and ATOMS[i].pos:
                    neg[i] = min(neg.get(i, 0), e)
        for i, e in neg.items():
            k = (-e + 1) // 2
            f = pmul(f, _pow_atom(i, -k))
            q = pmul(q, _pow_atom(i, 2 * k))
        c2, q = content(q)
        c = c * c2
    if c > 0:
        r, s = _isqrt_frac(c)
        rad = pscale(q, s)
    else:
        r, s = _isqrt_frac(-c)
        rad = pscale(q, -s)
    return Sym(pmul(pmul(const(r), f), _sqrt_atom(rad)))


def _perfect_square(q):
    """q == r**2 for a linear-ish r with few terms (detected on 1/3/6 terms)."""
    if len(q) not in (3, 6):
        return None
    roots = {}
    for m, c in q.items():
        if m == ONE or all(e % 2 == 0 for _, e in m):
            n, d = c.numerator, c.denominator
            if c <= 0:
                continue
            a, b = math.isqrt(n), math.isqrt(d)
            if a * a == n and b * b == d:
                roots[tuple((i, e // 2) for i, e in m)] = _q(Fraction(a, b))
    ms = list(roots)
    k = {3: 2, 6: 3}[len(q)]
    if len(ms) < k:
        return None
    import itertools
    for sub in itertools.combinations(ms, k):
        for signs in itertools.product((1, -1), repeat=k - 1):
            r = {sub[0]: roots[sub[0]]}
            for m, s in zip(sub[1:], signs):
                r[m] = roots[m] * s
            if pmul(r, r) == q:
                return r
    return None


def _sqrt_atom(rad):
    a = atom("sqrt", pkey(rad))
    if a.sq is None:
        a.sq = rad
        a.nonneg = True
        if known_sign(rad) == 1:
            a.pos = True
    return {((a.id, 1),): _F1}


def spow(a, n):
    if isinstance(n, Sym):
        if not n.isconst():
            return sexp(n * slog(a))
        n = n.const()
    n = to_frac(n)
    a = Sym.of(a)
    if n.denominator == 1:
        n = int(n)
        if n >= 0:
            return Sym(ppow(a.p, n))
        return Sym.of(1) / Sym(ppow(a.p, -n))
    if n.denominator == 2:
        s = ssqrt(a)
        return spow(s, n.numerator)
    return sexp(Sym.of(n) * slog(a))


def sfn(name, a, pos=False):
    a = Sym.of(a)
    t = atom("fn", (name, pkey(a.p)))
    if pos:
        t.pos = True
    return Sym({((t.id, 1),): _F1})


def sexp(a):
    """exp as an atom; exp(p+q) is split into exp(p)*exp(q) monomial-wise."""
    if _special(a):
        return math.exp(a)
    a = Sym.of(a)
    if not a.p:
        return Sym(const(1))
    out = Sym(const(1))
    for m, c in a.p.items():
        # exp(c*m): integer multiples share the atom
        num, den = c.numerator, c.denominator
        base = Sym({m: _q(Fraction(1, den))})
        mono = m and all(ATOMS[i].kind == "fn" and ATOMS[i].data[0] == "log" for i, e in m) and len(m) == 1 and m[0][1] == 1
        if mono:
            arg = Sym(dict(ATOMS[m[0][0]].data[1]))
            out = out * spow(arg, c)
            continue
        if abs(num) > 64:       # too large a power: an atom of its own (sign kept apart, exp(-x) = 1/exp(x))
            e = sfn("exp", Sym({m: _q(Fraction(abs(num), den))}), pos=True)
            out = out * (e if num > 0 else 1 / e)
            continue
        e = sfn("exp", base, pos=True)
        out = out * spow(e, num)
    return out


def _pos_atom(i):
    a = ATOMS[i]
    if a.pos:
        return True
    return a.kind in ("sqrt", "inv") and _known_positive(dict(a.data))


def _known_positive(p):
    if known_sign(p) == 1:
        return True
    c = CTX[0]
    if c is None or not getattr(c, "use_known", False):
        return False
    r = Sym(p) > 0
    return r is True or (isinstance(r, SymBool) and (r.b is True or c.known.get(r.b) is True))


def slog(a):
    if _special(a):
        return math.log(a)
    a = Sym.of(a)
    if is_const(a.p):
        if cval(a.p) == 1:
            return Sym({})
        return _log_const(cval(a.p))
    if len(a.p) == 1:
        (m, c), = a.p.items()
        if c > 0 and all(_pos_atom(i) for i, e in m):
            out = _log_const(c)
            for i, e in m:
                at = ATOMS[i]
                if at.kind == "fn" and at.data[0] == "exp":
                    out = out + e * Sym(dict(at.data[1]))
                elif at.kind == "sqrt":
                    out = out + Fraction(e, 2) * slog(Sym(dict(at.data)))
                elif at.kind == "inv":
                    out = out - e * slog(Sym(dict(at.data)))
                else:
                    out = out + e * sfn("log", Sym({((i, 1),): _F1}))
            return out
    mono, rest = _common(a.p)
    if mono is not None:
        return slog(mono) + slog(Sym(rest))
    c, q = content(a.p)
    if c > 0:
        return _log_const(c) + sfn("log", Sym(q))
    return sfn("log", a)


_PIS = {to_frac(2 * math.pi): (1, 0), to_frac(math.pi): (1, -1), to_frac(math.sqrt(2 * math.pi)): (Fraction(1, 2), 0),
        to_frac(1 / math.sqrt(2 * math.pi)): (Fraction(-1, 2), 0)}


def _common(p):
    """Common monomial of the positive atoms of a polynomial with several terms, and the rest."""
    low = None
    for m in p:
        e = {i: k for i, k in m if ATOMS[i].pos}
        if low is None:
            low = e
        else:
            low = {i: min(low.get(i, 0), e.get(i, 0)) for i in set(low) | set(e)}
    low = {i: k for i, k in low.items() if k}
    if not low:
        return None, p
    q = Sym(dict(p))
    mono = Sym({tuple(sorted(low.items())): _F1})
    for i, k in low.items():
        q = q * Sym({((i, -k),): _F1})
    return mono, q.p


def _log_const(c):
    """log of a positive rational as a combination of logs of primes."""
    out = Sym({})
    if c <= 0:
        raise Unsupported("log of non-positive constant")
    if c in _PIS:
        a, b = _PIS[c]
        return a * slog(var("PI2", pos=True)) + b * _log_int(2)
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        k = 2
        while n > 1 and k * k <= n and k < 5000:
            while n % k == 0:
                n //= k
                out = out + s * _log_int(k)
            k += 1
        if n > 1:
            out = out + s * _log_int(n)
    return out


def _log_int(n):
    r = sfn("log", Sym(const(n)))
    (m, c), = r.p.items()
    a = ATOMS[m[0][0]]
    a.pos = a.nonneg = True        # n >= 2
    return r


def var(name, pos=False, nonneg=False):
    a = atom("var", name)
    a.pos = a.pos or pos
    a.nonneg = a.nonneg or nonneg or pos
    return Sym({((a.id, 1),): _F1})


def boolvar(name):
    a = atom("var", "?" + name)
    return SymBool(b_cmp(">", {((a.id, 1),): _F1}))


# --------------------------------------------------------------------------
def substitute(p, env, cache=None):
    """Replace variable atoms by rational constants / Syms (env: atom id -> Sym)
    and re-normalise, recursing into nested atoms."""
    if cache is None:
        cache = {}
    out = Sym({})
    for m, c in p.items():
        t = Sym(const(c))
        for i, e in m:
            t = t * spow(_subst_atom(i, env, cache), e)
        out = out + t
    return out


def _subst_atom(i, env, cache):
    if i in env:
        return env[i]
    if i in cache:
        return cache[i]
    a = ATOMS[i]
    if a.kind in ("var", "uf"):
        r = Sym({((i, 1),): _F1})
    elif a.kind == "sqrt":
        r = ssqrt(substitute(dict(a.data), env, cache))
    elif a.kind == "inv":
        r = Sym.of(1) / substitute(dict(a.data), env, cache)
    elif a.kind == "def":
        r = substitute(dict(a.data), env, cache)
    elif a.kind == "fn":
        arg = substitute(dict(a.data[1]), env, cache)
        r = {"exp": sexp, "log": slog}.get(a.data[0], lambda x: sfn(a.data[0], x))(arg)
    elif a.kind == "ind":
        r = Sym(ind(subst_b(a.data, env, cache)))
    else:
        raise Unsupported(a.kind)
    cache[i] = r
    return r


def subst_b(b, env, cache=None):
    if cache is None:
        cache = {}
    if b is True or b is False:
        return b
    if b[0] == "cmp":
        return b_cmp(b[1], substitute(dict(b[2]), env, cache).p)
    if b[0] == "not":
        return b_not(subst_b(b[1], env, cache))
    f = b_and if b[0] == "and" else b_or
    return f(*[subst_b(x, env, cache) for x in b[1]])


def evalf(p, env, cache):
    """Float evaluation; env maps atom id -> float (callable for uf atoms)."""
    tot = 0.0
    for m, c in p.items():
        t = float(c)
        for i, e in m:
            t *= _evalf_atom(i, env, cache) ** e
        tot += t
    return tot


def _evalf_atom(i, env, cache):
    if i in cache:
        return cache[i]
    a = ATOMS[i]
    if i in env:
        v = env[i]
        v = v(lambda q: evalf(q, env, cache)) if callable(v) else float(v)
    elif a.kind == "sqrt":
        v = math.sqrt(max(0.0, evalf(dict(a.data), env, cache)))
    elif a.kind == "inv":
        v = 1.0 / evalf(dict(a.data), env, cache)
    elif a.kind == "def":
        v = evalf(dict(a.data), env, cache)
    elif a.kind == "fn":
        x = evalf(dict(a.data[1]), env, cache)
        v = {"exp": math.exp, "log": math.log, "logabs": lambda t: math.log(abs(t)), "tanh": math.tanh, "sin": math.sin,
             "cos": math.cos}[a.data[0]](x)
    elif a.kind == "ind":
        v = 1.0 if evalb(a.data, env, cache) else 0.0
    elif a.kind == "uf":
        v = a.info(lambda q: evalf(q, env, cache))
    else:
        raise Unsupported("no value for %s" % name_of(a))
    cache[i] = v
    return v


def evalb(b, env, cache):
    if b is True or b is False:
        return b
    if b[0] == "cmp":
        v = evalf(dict(b[2]), env, cache)
        return {">": v > 0, ">=": v >= 0, "==": abs(v) < 1e-12}[b[1]]
    if b[0] == "not":
        return not evalb(b[1], env, cache)
    f = all if b[0] == "and" else any
    return f(evalb(x, env, cache) for x in b[1])


def derivative(x, vid, cache=None):
    """Symbolic partial derivative of a Sym with respect to a variable atom (indicators: zero, i.e. off their boundary)."""
    if cache is None:
        cache = {}
    out = Sym({})
    for m, c in Sym.of(x).p.items():
        for k, (i, e) in enumerate(m):
            d = _datom(i, vid, cache)
            if not d.p:
                continue
            rest = Sym({tuple(m[:k]) + tuple(m[k + 1:]): c})
            a = Sym({((i, 1),): _F1})
            out = out + rest * e * (a ** (e - 1) if e != 1 else 1) * d
    return out


def _datom(i, vid, cache):
    if i in cache:
        return cache[i]
    a = ATOMS[i]
    me = Sym({((i, 1),): _F1})
    if a.kind == "var":
        r = Sym.of(1 if i == vid else 0)
    elif a.kind == "ind":
        r = Sym({})
    elif a.kind == "fn":
        q = Sym(dict(a.data[1]))
        dq = derivative(q, vid, cache)
        n = a.data[0]
        if not dq.p:
            r = dq
        elif n == "exp":
            r = me * dq
        elif n in ("log", "logabs"):
            r = dq / q
        elif n == "tanh":
            r = (1 - me * me) * dq
        else:
            raise Unsupported("derivative of %s" % n)
    elif a.kind in ("inv", "sqrt", "def"):
        q = Sym(dict(a.data))
        dq = derivative(q, vid, cache)
        if not dq.p or a.kind == "def":
            r = dq
        elif a.kind == "inv":
            r = -me * me * dq
        else:
            r = dq / (2 * me)
    else:
        if a.kind == "uf" and vid in S_uf_atoms(a):
            raise Unsupported("derivative of an opaque function")
        r = Sym({})
    cache[i] = r
    return r


def S_uf_atoms(a):
    acc = set()
    for q in a.data[1]:
        atoms_in(dict(q), acc)
    return acc


def atoms_in(p, acc=None):
    """All atom ids reachable (through nested atoms)."""
    if acc is None:
        acc = set()
    for m in p:
        for i, _ in m:
            if i not in acc:
                acc.add(i)
                a = ATOMS[i]
                if a.kind in ("sqrt", "inv", "def"):
                    atoms_in(dict(a.data), acc)
                elif a.kind == "fn":
                    atoms_in(dict(a.data[1]), acc)
                elif a.kind == "ind":
                    atoms_in_b(a.data, acc)
    return acc


def atoms_in_b(b, acc=None):
    if acc is None:
        acc = set()
    if b is True or b is False:
        return acc
    if b[0] == "cmp":
        atoms_in(dict(b[2]), acc)
    elif b[0] == "not":
        atoms_in_b(b[1], acc)
    else:
        for x in b[1]:
            atoms_in_b(x, acc)
    return acc
