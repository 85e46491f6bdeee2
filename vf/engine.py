"""Path exploration by re-execution."""
import math
import random
import time
import traceback
from fractions import Fraction

from . import solve
from . import sym as S
from .sym import Sym, SymBool, Unsupported


class Infeasible(BaseException):
    """The current path contradicts an assumption."""


class Budget(BaseException):
    """Path or time budget exhausted."""


class _Env(object):
    """Lazily drawn values of input variables."""

    def __init__(self, rng, vals):
        self.rng, self.vals = rng, vals

    def __contains__(self, i):
        return S.ATOMS[i].kind == "var"

    def __getitem__(self, i):
        v = self.vals.get(i)
        if v is None:
            a, r = S.ATOMS[i], self.rng
            if a.data == "PI2":
                v = 2 * math.pi
            elif a.data == "INF":
                v = 1e9
            elif a.pos or a.nonneg:
                v = math.exp(r.uniform(*r.choice([(-2.5, 1.5), (-2.5, 1.5), (1, 4), (-5, -2)])))
            else:
                v = r.gauss(0, 1) * r.choice([0.3, 1, 1, 3])
            self.vals[i] = v
        return v


def _solve_for(f, env, vals, cache):
    """Move one input variable so that the equality f holds (f linear in it with a constant factor)."""
    if f[0] == "and":
        return any(_solve_for(x, env, vals, cache) for x in f[1] if not S.evalb(x, env, cache))
    if f[0] != "cmp" or f[1] != "==":
        return False
    p = dict(f[2])
    for m, c in reversed(list(p.items())):
        if len(m) == 1 and m[0][1] == 1:
            i = m[0][0]
            a = S.ATOMS[i]
            if a.kind != "var" or a.data in ("PI2", "INF"):
                continue
            rest = {k: v for k, v in p.items() if k != m}
            if i in S.atoms_in(rest):
                continue
            v = -S.evalf(rest, env, cache) / float(c)
            if (a.pos and v <= 0) or (a.nonneg and v < 0):
                continue
            vals[i] = v
            return True
    return False


def clearly_false(b, env, cache, want=False):
    """b has truth value ``want`` with a numeric margin."""
    if b is True or b is False:
        return b is want
    if b[0] == "not":
        return clearly_false(b[1], env, cache, not want)
    if b[0] == "cmp":
        v, mag = 0.0, 1e-3
        for m, c in b[2]:
            t = float(c)
            for i, e in m:
                t *= S._evalf_atom(i, env, cache) ** e
            v += t
            mag += abs(t)
        if not mag < 1e30:
            return False
        eps = 1e-6 * mag
        if b[1] == "==":
            return (not want) and abs(v) > eps
        return v < -eps if not want else v > eps
    if (b[0] == "and") == (not want):
        return any(clearly_false(x, env, cache, want) for x in b[1])
    return all(clearly_false(x, env, cache, want) for x in b[1])


class Path(object):
    def __init__(self, prefix, deadline=None, feas_timeout=2.0, nra_feas=0.0):
        self.prefix = prefix
        self.taken = []
        self.pending = []       # alternative prefixes discovered
        self.facts = []         # canonical booleans: assumptions + decisions
        self.use_known = False   # indicators of decided conditions become constants (harness opt-in)
        self.known = {}
        self.div_fork = False
        self.obligations = []   # (label, goal, facts at that point)
        self.lazy = []
        self.uftab = {}
        self.divs = 0
        self.deadline = deadline
        self.feas_timeout = feas_timeout
        self.nra_feas = nra_feas
        self.notes = {}
        self.uf_effort = 1
        self.warned = []
        self.env = {}

    # -- decisions
    def learn(self, b):
        if b is True:
            return
        self.facts.append(b)
        self.known[b] = True
        self.known[S.b_not(b)] = False
        if b[0] == "and":
            for x in b[1]:
                self.known[x] = True
                self.known[S.b_not(x)] = False
        if b[0] == "not" and b[1][0] == "or":
            for x in b[1][1]:
                self.known[x] = False
                self.known[S.b_not(x)] = True
        # p > 0 implies p >= 0 ; not(p >= 0) implies not(p > 0)
        if b[0] == "cmp" and b[1] == ">":
            self.known.setdefault(("cmp", ">=", b[2]), True)
            self.known.setdefault(("cmp", "==", b[2]), False)
        if b[0] == "not" and b[1][0] == "cmp" and b[1][1] == ">=":
            self.known.setdefault(("cmp", ">", b[1][2]), False)
            self.known.setdefault(("cmp", "==", b[1][2]), False)
        if b[0] == "cmp" and b[1] == "==":
            self.known.setdefault(("cmp", ">=", b[2]), True)
            self.known.setdefault(("cmp", ">", b[2]), False)

    def feasible(self, b):
        r = solve.query(self.facts + [b], "lin", self.feas_timeout)
        if r == "unsat":
            return False
        if self.nra_feas:
            if solve.query(self.facts + [b], "nra", self.nra_feas) == "unsat":
                return False
        return True

    def decide(self, b):
        if b[0] == "not":
            return not self.decide(b[1])
        k = self.known.get(b)
        if k is not None:
            return k
        if self.deadline and time.time() > self.deadline:
            raise Budget("time")
        n = len(self.taken)
        if n < len(self.prefix):
            v = self.prefix[n]
        else:
            t = self.feasible(b)
            f = self.feasible(S.b_not(b)) if t else True
            if t and f:
                v = True
                self.pending.append(self.taken + [False])
            else:
                v = t
        self.taken.append(v)
        self.learn(b if v else S.b_not(b))
        return v

    def assume(self, c):
        b = S.to_b(c)
        if b is False:
            raise Infeasible()
        if self.known.get(b) is False:
            raise Infeasible()
        self.learn(b)

    def note_div(self, q):
        self.divs += 1

    def axiom_lazy(self, kind, data):
        self.lazy.append((kind, data))

    # -- numeric refutation (only ever used to skip or to find candidates, never to accept)
    def points(self, n=48):
        """Random valuations of the input variables that satisfy the current path."""
        if not hasattr(self, "_pts"):
            rng = random.Random(12345)
            self._pts = []
            for k in range(n):
                self._pts.append([rng, {}, {}, 0])
        out = []
        for pt in self._pts:
            if pt[3] is None:
                continue
            env = _Env(pt[0], pt[1])
            try:
                moves = 0
                while pt[3] < len(self.facts):
                    f = self.facts[pt[3]]
                    if not S.evalb(f, env, pt[2]):
                        if moves < 6 and _solve_for(f, env, pt[1], pt[2]):
                            moves += 1
                            pt[2].clear()
                            pt[3] = 0
                            continue
                        pt[3] = None
                        break
                    pt[3] += 1
            except Exception:
                pt[3] = None
            if pt[3] is not None:
                out.append((env, pt[1], pt[2]))
        return out

    def differ(self, args, other):
        """True if some point of the path separates the two argument tuples."""
        pts = self.points()[:4]
        if not pts and not any(f[0] == "cmp" and f[1] == "==" for f in self.facts):
            # no sample lies on this path; without equality facts separation elsewhere is good enough a reason
            # not to spend solver time (missing a congruence can only make a proof fail)
            pts = [(_Env(p[0], p[1]), p[1], p[2]) for p in self._pts[:4]]
        for env, vals, cache in pts:
            try:
                for x, y in zip(args, other):
                    d = (x - y).p
                    v = S.evalf(d, env, cache)
                    if abs(v) > 1e-5 * (1e-3 + abs(S.evalf(x.p, env, cache))):
                        return True
            except Exception:
                continue
        return False

    def refute(self, goal):
        """Input values on this path for which the goal fails by a margin, or None."""
        for env, vals, cache in self.points():
            try:
                if clearly_false(goal, env, cache):
                    return dict(vals)
            except Exception:
                continue
        return None

    # -- uninterpreted functions
    def uf(self, name, args, nout, numeric=None, setup=None):
        args = [Sym.of(a) for a in args]
        keys = tuple(S.pkey(a.p) for a in args)
        tab = self.uftab.setdefault(name, [])
        for k, a, outs in tab:
            if k == keys:
                return outs
        for k, a, outs in tab:
            if self.differ(args, a):
                continue
            goal = S.b_and(*[S.b_cmp("==", (x - y).p) for x, y in zip(args, a)])
            if goal is False:
                continue
            r = solve.prove(self.facts, goal, timeout=5.0, effort=self.uf_effort)
            if r.status == "proved":
                tab.append((keys, args, outs))
                return outs
        atoms = [S.atom("uf", (name, keys, i)) for i in range(nout)]
        if setup is not None:
            setup(atoms)
        if numeric is not None:
            memo = {}

            def mk(i):
                def f(ev):
                    # NB: memo per evaluation function
                    key = id(ev.__closure__[0].cell_contents) if False else None
                    vals = [ev(a.p) for a in args]
                    kk = tuple(vals)
                    if kk not in memo:
                        memo.clear()
                        memo[kk] = numeric(vals)
                    return memo[kk][i]
                return f
            for i, a in enumerate(atoms):
                a.info = mk(i)
        outs = [Sym({((a.id, 1),): 1}) for a in atoms]
        tab.append((keys, args, outs))
        return outs

    def modulo(self, a, b):
        r, = self.uf("mod", [a, b], 1, lambda v: [v[0] % v[1]])
        self.assume(r >= 0)
        self.assume(r < b)
        return r

    def eigh_axioms(self):
        """Q diag(es) Q' = A for the spectral stubs used on this path."""
        out = []
        for kind, data in self.lazy:
            if kind != "eigh":
                continue
            args, es, Q = data
            n = len(es)
            k = 0
            for i in range(n):
                for j in range(i + 1):
                    t = Sym({})
                    for c in range(n):
                        t = t + Q[i, c] * Q[j, c] * es[c]
                    out.append(S.b_cmp("==", (t - args[k]).p))
                    k += 1
        return [b for b in out if b is not True]

    def eigh_subst(self):
        """The same axioms as a substitution of input variables that occur linearly."""
        env = {}
        for kind, data in self.lazy:
            if kind != "eigh":
                continue
            args, es, Q = data
            n = len(es)
            k = 0
            for i in range(n):
                for j in range(i + 1):
                    t = Sym({})
                    for c in range(n):
                        t = t + Q[i, c] * Q[j, c] * es[c]
                    a = args[k]
                    k += 1
                    for m, co in a.p.items():
                        if len(m) == 1 and m[0][1] == 1 and S.ATOMS[m[0][0]].kind == "var" and m[0][0] not in env:
                            v = m[0][0]
                            rest = Sym({mm: cc for mm, cc in a.p.items() if mm != m})
                            if v in S.atoms_in(rest.p) or (S.atoms_in(rest.p) & set(env)):
                                continue
                            env[v] = (t - rest) / Sym(S.const(co))
                            break
        return env

    # -- obligations
    def check(self, cond, label):
        self.obligations.append((label, S.to_b(cond), len(self.facts)))


class PathResult(object):
    def __init__(self):
        self.status = None      # ok / raise / unsupported / infeasible
        self.exc = None
        self.tb = None
        self.path = None
        self.value = None


def explore(fn, max_paths=200, budget=300.0, feas_timeout=2.0, nra_feas=0.0):
    """Run fn() on every feasible path.  Returns (results, complete?)."""
    t_end = time.time() + budget
    work = [[]]
    results = []
    complete = True
    while work:
        if len(results) >= max_paths or time.time() > t_end:
            complete = False
            break
        prefix = work.pop()
        p = Path(prefix, deadline=t_end, feas_timeout=feas_timeout, nra_feas=nra_feas)
        S.CTX[0] = p
        r = PathResult()
        r.path = p
        from . import arr
        arr.EMPTY[0] = 0
        try:
            r.value = fn(p)
            r.status = "ok"
        except Infeasible:
            r.status = "infeasible"
        except Budget:
            r.status = "unsupported"
            r.exc = Unsupported("budget exhausted")
            complete = False
        except Unsupported as e:
            r.status = "unsupported"
            r.exc = e
            r.tb = traceback.format_exc()
        except RecursionError as e:
            r.status = "unsupported"
            r.exc = e
        except Exception as e:  # raised by the code under test (or by a stub gap)
            r.status = "raise"
            r.exc = e
            r.tb = traceback.format_exc()
        finally:
            S.CTX[0] = None
        work.extend(p.pending)
        results.append(r)
    return results, complete
