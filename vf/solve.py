"""z3 encodings of canonical terms and the proof strategy."""
import os
import sys
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402

from . import sym as S  # noqa: E402

STATS = dict(queries=0, unsat=0, sat=0, unknown=0, time=0.0, trivial=0)


def fresh_stats():
    for k in STATS:
        STATS[k] = 0 if k != "time" else 0.0


class Enc(object):
    """mode 'lin': nonlinear monomials are opaque reals (over-approximation, sound
    for 'unsat'); mode 'nra': exact nonlinear real arithmetic."""

    def __init__(self, mode):
        self.mode = mode
        self.vars = {}
        self.monos = {}
        self.defs = {}
        self.side = []
        self.bcache = {}
        self.pcache = {}

    def v(self, i):
        x = self.vars.get(i)
        if x is not None:
            return x
        a = S.ATOMS[i]
        x = z3.Real("a%d" % i)
        self.vars[i] = x
        if a.pos:
            self.side.append(x > 0)
        elif a.nonneg:
            self.side.append(x >= 0)
        if self.mode == "nra":
            if a.sq is not None:
                self.side.append(x * x == self.poly(a.sq))
            elif a.kind == "inv":
                self.side.append(x * self.poly(dict(a.data)) == 1)
        return x

    def mono(self, m):
        """product of non-indicator atoms."""
        if self.mode == "nra":
            t = None
            for i, e in m:
                if e < 0:
                    b = self.inverse(i)
                    e = -e
                elif S.ATOMS[i].kind == "def":
                    b = self.poly(dict(S.ATOMS[i].data))
                else:
                    b = self.v(i)
                for _ in range(e):
                    t = b if t is None else t * b
            return t
        if len(m) == 1 and m[0][1] == 1:
            a = S.ATOMS[m[0][0]]
            if a.kind == "def":
                return self.poly(dict(a.data))
            return self.v(m[0][0])
        x = self.monos.get(m)
        if x is None:
            x = z3.Real("m%d" % len(self.monos))
            self.monos[m] = x
            sg = S.known_sign({m: 1})
            if sg == 1:
                self.side.append(x > 0)
            elif sg == 0.5:
                self.side.append(x >= 0)
        return x

    def inverse(self, i):
        k = ("inv", i)
        x = self.vars.get(k)
        if x is None:
            x = z3.Real("ia%d" % i)
            self.vars[k] = x
            self.side.append(x * self.v(i) == 1)
        return x

    def poly(self, p):
        k = S.pkey(p)
        t = self.pcache.get(k)
        if t is None:
            t = self._poly(p)
            self.pcache[k] = t
        return t

    def _poly(self, p):
        groups = {}
        for m, c in p.items():
            g = tuple(i for i, e in m if S.ATOMS[i].kind == "ind")
            r = tuple((i, e) for i, e in m if S.ATOMS[i].kind != "ind")
            groups.setdefault(g, []).append((r, c))
        terms = []
        for g, lst in groups.items():
            ts = []
            for r, c in lst:
                cc = z3.RealVal("%d/%d" % (c.numerator, c.denominator))
                ts.append(cc if not r else (self.mono(r) if c == 1 else cc * self.mono(r)))
            t = ts[0] if len(ts) == 1 else z3.Sum(ts)
            if g:
                cond = z3.And([self.boolean(S.ATOMS[i].data) for i in g]) if len(g) > 1 \
                    else self.boolean(S.ATOMS[g[0]].data)
                t = z3.If(cond, t, z3.RealVal(0))
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def boolean(self, b):
        if b is True or b is False:
            return z3.BoolVal(b)
        t = self.bcache.get(b)
        if t is not None:
            return t
        if b[0] == "cmp":
            p = self.poly(dict(b[2]))
            t = {">": p > 0, ">=": p >= 0, "==": p == 0}[b[1]]
        elif b[0] == "not":
            t = z3.Not(self.boolean(b[1]))
        elif b[0] == "and":
            t = z3.And([self.boolean(x) for x in b[1]])
        else:
            t = z3.Or([self.boolean(x) for x in b[1]])
        self.bcache[b] = t
        return t


def _check(solver, timeout):
    solver.set("timeout", int(timeout * 1000))
    t0 = time.time()
    try:
        r = solver.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS["time"] += time.time() - t0
    STATS["queries"] += 1
    s = str(r)
    STATS[s] = STATS.get(s, 0) + 1
    return s


def query(facts, mode, timeout, want_model=False):
    """Satisfiability of the conjunction of canonical booleans."""
    enc = Enc(mode)
    fs = [enc.boolean(b) for b in facts]
    s = z3.SolverFor("QF_NRA") if mode == "nra" else z3.SolverFor("QF_LRA")
    s.add(fs)
    n = 0
    while n < len(enc.side):  # side conditions may create further ones
        chunk = enc.side[n:]
        n = len(enc.side)
        s.add(chunk)
    r = _check(s, timeout)
    if r == "sat" and want_model:
        return r, model_of(s.model(), enc)
    return (r, None) if want_model else r


def model_of(m, enc):
    env = {}
    for i, x in enc.vars.items():
        if isinstance(i, tuple):
            continue
        v = m.eval(x, model_completion=True)
        try:
            if z3.is_rational_value(v):
                env[i] = Fraction(v.numerator_as_long(), v.denominator_as_long())
            else:
                a = v.approx(20)
                env[i] = Fraction(a.numerator_as_long(), a.denominator_as_long())
        except Exception:
            pass
    return env


def clear_all(p):
    """Multiply by denominators: p == 0 <=> result == 0 where those are nonzero."""
    for _ in range(40):
        p = S.expand_def(p) if any(S.ATOMS[i].kind == "def" for m in p for i, _ in m) and len(p) < 300 else p
        ids = sorted({i for m in p for i, e in m if S.ATOMS[i].kind == "inv"})
        neg = {}
        for m in p:
            for i, e in m:
                if e < 0:
                    neg[i] = min(neg.get(i, 0), e)
        if neg:
            f = {S.ONE: 1}
            for i, e in neg.items():
                f = S.pmul(f, S._pow_atom(i, -e))
            p = S.pmul_raw(p, f)
            continue
        if ids:
            if len(p) * len(S.ATOMS[ids[-1]].data) > 60000:
                return p
            p = S.clear_inv(p, ids[-1])
            continue
        return p
    return p


def normal_eq(b):
    """Stronger normal form for equalities (denominators cleared)."""
    if b is True or b is False:
        return b
    if b[0] == "cmp" and b[1] == "==":
        q = clear_all(dict(b[2]))
        return S.b_cmp("==", q)
    if b[0] == "and":
        return S.b_and(*[normal_eq(x) for x in b[1]])
    return b


def relevant(facts, goal_atoms):
    """Facts sharing atoms with the goal (one closure step)."""
    at = set(goal_atoms)
    out = []
    for f in facts:
        fa = S.atoms_in_b(f)
        if fa & at:
            out.append(f)
    return out


class Result(object):
    __slots__ = ("status", "model", "how")

    def __init__(self, status, model=None, how=""):
        self.status = status   # proved / cex / unknown
        self.model = model
        self.how = how


PROOF_CACHE = {}


def prove(facts, goal, timeout=20.0, effort=2, hints=()):
    """Is ``goal`` valid under ``facts`` (canonical booleans)?"""
    if goal is True:
        STATS["trivial"] += 1
        return Result("proved", how="normal form")
    facts = [f for f in facts if f is not True]
    key = (tuple(facts), goal)
    r = PROOF_CACHE.get(key)
    if r is not None:
        return r
    r = _prove(facts, goal, timeout, effort, hints)
    if len(PROOF_CACHE) < 100000 and (r.status == "proved" or effort > 0):
        PROOF_CACHE[key] = r
    return r


def _prove(facts, goal, timeout, effort, hints):
    if goal is not False and goal[0] == "and":
        # split conjunctions
        how = set()
        for g in goal[1]:
            r = prove(facts, g, timeout, effort, hints)
            if r.status != "proved":
                return r
            how.add(r.how)
        return Result("proved", how="+".join(sorted(how)))
    neg = S.b_not(goal)
    if goal is not False:
        if query([neg], "lin", min(timeout, 10)) == "unsat":
            return Result("proved", how="lra")
        g2 = normal_eq(goal)
        if g2 is True:
            STATS["trivial"] += 1
            return Result("proved", how="normal form")
        if g2 != goal:
            if query([S.b_not(g2)], "lin", min(timeout, 10)) == "unsat":
                return Result("proved", how="lra")
        goal, neg = g2, S.b_not(g2)
    if facts:
        if query(facts + [neg], "lin", min(timeout, 20)) == "unsat":
            return Result("proved", how="lra+path")
    if effort < 1:
        return Result("unknown", how="lra only")
    rel = relevant(facts, S.atoms_in_b(neg)) if goal is not False else facts
    r, m = query([neg] + rel, "nra", timeout, True)
    if r == "unsat":
        return Result("proved", how="nra")
    if len(rel) != len(facts):
        r2, m2 = query([neg] + facts, "nra", timeout, True)
        if r2 == "unsat":
            return Result("proved", how="nra+path")
        if r2 == "sat":
            return Result("cex", m2, "nra")
        if r == "sat":
            return Result("unknown", m, "nra (partial path)")
    elif r == "sat":
        return Result("cex", m, "nra")
    # hints: concrete partial assignments that make the query easier to satisfy
    for h in hints:
        env = {i: S.Sym.of(v) for i, v in h.items()}
        try:
            fs = [S.subst_b(f, env) for f in facts + [neg]]
        except Exception:
            continue
        if any(f is False for f in fs):
            continue
        fs = [f for f in fs if f is not True]
        r, m = query(fs, "nra", min(5, timeout), True) if fs else ("sat", {})
        if r == "sat":
            m = dict(m or {})
            m.update(h)
            return Result("cex", m, "nra+hint")
    return Result("unknown", m, "timeout")
