"""Self-test of the engine: the normaliser against float evaluation and against z3 on the raw expression trees.
Used as setup_cmd; prints one line and exits non-zero if the engine disagrees with either."""
import math
import os
import random
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from vf import engine, solve  # noqa
from vf import sym as S  # noqa

z3 = solve.z3


def tree(rng, depth, nv):
    if depth == 0 or rng.random() < 0.15:
        return ("v", rng.randrange(nv)) if rng.random() < 0.8 else ("c", rng.randint(-3, 3))
    op = rng.choice(["+", "-", "*", "*", "max", "min", "abs", "neg", "ite", "sq", "div", "sqrt"])
    n = {"abs": 1, "neg": 1, "sq": 1, "sqrt": 1, "ite": 4}.get(op, 2)
    return (op,) + tuple(tree(rng, depth - 1, nv) for _ in range(n))


def fl(t, env):
    op = t[0]
    if op == "v":
        return env[t[1]]
    if op == "c":
        return float(t[1])
    a = [fl(x, env) for x in t[1:]]
    return {"+": lambda: a[0] + a[1], "-": lambda: a[0] - a[1], "*": lambda: a[0] * a[1], "max": lambda: max(a),
            "min": lambda: min(a), "abs": lambda: abs(a[0]), "neg": lambda: -a[0], "sq": lambda: a[0] * a[0],
            "ite": lambda: a[2] if a[0] >= a[1] else a[3], "div": lambda: a[0] / (1 + a[1] * a[1]),
            "sqrt": lambda: math.sqrt(a[0] * a[0] + 1)}[op]()


def sy(t, vs):
    op = t[0]
    if op == "v":
        return vs[t[1]]
    if op == "c":
        return S.Sym.of(t[1])
    a = [sy(x, vs) for x in t[1:]]
    return {"+": lambda: a[0] + a[1], "-": lambda: a[0] - a[1], "*": lambda: a[0] * a[1], "max": lambda: S.smax(*a),
            "min": lambda: S.smin(*a), "abs": lambda: abs(a[0]), "neg": lambda: -a[0], "sq": lambda: a[0] ** 2,
            "ite": lambda: S.site(a[0] >= a[1], a[2], a[3]), "div": lambda: a[0] / (1 + a[1] * a[1]),
            "sqrt": lambda: S.ssqrt(a[0] * a[0] + 1)}[op]()


def zz(t, vs, side):
    op = t[0]
    if op == "v":
        return vs[t[1]]
    if op == "c":
        return z3.RealVal(t[1])
    a = [zz(x, vs, side) for x in t[1:]]
    if op == "sqrt":
        r = z3.Real("r%d" % len(side))
        side.append(z3.And(r >= 0, r * r == a[0] * a[0] + 1))
        return r
    return {"+": lambda: a[0] + a[1], "-": lambda: a[0] - a[1], "*": lambda: a[0] * a[1],
            "max": lambda: z3.If(a[0] >= a[1], a[0], a[1]), "min": lambda: z3.If(a[0] >= a[1], a[1], a[0]),
            "abs": lambda: z3.If(a[0] >= 0, a[0], -a[0]), "neg": lambda: -a[0], "sq": lambda: a[0] * a[0],
            "ite": lambda: z3.If(a[0] >= a[1], a[2], a[3]), "div": lambda: a[0] / (1 + a[1] * a[1])}[op]()


def main():
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    nf = nz = unk = 0
    for k in range(400):
        S.reset()
        S.CTX[0] = engine.Path([])
        nv = 3
        names = [S.var("in:x%d" % i) for i in range(nv)]
        t = tree(rng, 4 if k % 2 else 3, nv)
        try:
            e = S.Sym.of(sy(t, names))
        except S.Unsupported:
            continue
        ids = [next(iter(v.p))[0][0] for v in names]
        for _ in range(4):
            env = [rng.gauss(0, 2) if rng.random() < 0.7 else float(rng.randint(-2, 2)) for _ in range(nv)]
            v, w = fl(t, env), S.evalf(e.p, dict(zip(ids, env)), {})
            nf += 1
            if abs(v - w) > 1e-6 * (1 + abs(v)):
                print("SELFTEST FAILED", t, env, v, w)
                return 1
        if k % 4 == 0:
            # z3 decides raw tree == normal form
            enc = solve.Enc("nra")
            nfz = enc.poly(e.p)
            side = []
            raw = zz(t, [enc.v(i) if hasattr(enc, "v") else None for i in ids], side)
            s = z3.Solver()
            s.set("timeout", 1500)
            s.add(side)
            s.add(enc.side)
            s.add(raw != nfz)
            r = s.check()
            nz += r == z3.unsat
            unk += r == z3.unknown
            if r == z3.sat:
                print("SELFTEST FAILED (z3)", t, s.model())
                return 1
        S.CTX[0] = None
    print("selftest: %d evaluations agree, %d normal forms confirmed by z3, %d undecided in time" % (nf, nz, unk))
    return 0


sys.exit(main())
