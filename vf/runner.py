"""Runs the tasks of a property: symbolic exploration, solver verdicts, replay, evidence."""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

import numpy as np

from . import arr, engine, harness, shims, solve
from . import sym as S
from .harness import VERIF, HSym, load_real, run_concrete

REPO = shims.REPO


class Task(object):
    def __init__(self, fn, cfg=None, tier="quick", paths=400, budget=150.0, timeout=10.0, samples=24, nra_feas=0.0,
                 extra=None, effort=2, tries=200):
        self.fn = fn              # harness name inside the check module
        self.cfg = cfg or {}
        self.tier = tier
        self.paths = paths
        self.budget = budget
        self.timeout = timeout
        self.samples = samples    # concrete validation runs
        self.nra_feas = nra_feas
        self.extra = extra or {}
        self.effort = effort
        self.tries = tries        # replay attempts for unproved obligations

    @property
    def name(self):
        return self.fn + ("[" + ",".join("%s=%s" % kv for kv in sorted(self.cfg.items())) + "]" if self.cfg else "")


def check_path(pid):
    return os.path.join(VERIF, "checks", pid.lower() + ".py")


def load_sym(path, name):
    """Load a harness module with symbolic numpy and symbolic regain."""
    L = shims.Loader()
    import types
    m = types.ModuleType(name)
    m.__dict__["__builtins__"] = L.builtins
    m.__file__ = path
    with open(path) as f:
        src = f.read()
    # harness files may import siblings from checks/
    base_import = L._import

    def imp(nm, g=None, l=None, fromlist=(), level=0):
        p = os.path.join(VERIF, "checks", nm + ".py")
        if level == 0 and os.path.isfile(p):
            if nm not in L.mods:
                mm = types.ModuleType(nm)
                mm.__dict__["__builtins__"] = L.builtins
                mm.__file__ = p
                L.mods[nm] = mm
                with open(p) as f2:
                    exec(compile(f2.read(), p, "exec"), mm.__dict__)
            return L.mods[nm]
        return base_import(nm, g, l, fromlist, level)
    L.builtins["__import__"] = imp
    exec(compile(src, path, "exec"), m.__dict__)
    return m, L


def values_from_model(model, names):
    out = {}
    if not model:
        return out
    for nm, i in names.items():
        if i in model:
            out[nm] = float(model[i])
    return out


def run_task(pid, task, seed):
    """Executed in a worker process."""
    t0 = time.time()
    res = dict(task=task.name, fn=task.fn, cfg=task.cfg, paths=0, ok_paths=0, infeasible=0, decisions=0, obligations=0,
               proved=0, unproved=[], unsupported=[], raised=[], violations=[], complete=True, concrete_ok=0,
               concrete_checks=0, validated=0, validation_mismatch=[], functions=[], overrides=[], witness=None,
               how={})
    S.reset()
    solve.PROOF_CACHE.clear()
    solve.fresh_stats()
    path = check_path(pid)
    candidates = []
    names = {}
    real = {}
    seedbase = (seed * 1000003) % (2 ** 31 - 100000)

    def confirm(cex, label, k=0):
        """Replay a refuting valuation on the real code at once."""
        if res["violations"]:
            res["unproved"].append((label, "refuted", "numeric"))
            return True
        if "fn" not in real:
            for d in (REPO, os.path.join(VERIF, "checks")):
                if d not in sys.path:
                    sys.path.insert(0, d)
            real["fn"] = getattr(load_real(path, "real_" + pid), task.fn)
        vals = values_from_model(cex, names)
        st, fails, h = run_concrete(real["fn"], task.cfg, vals, seedbase + 90000 + k)
        if st in ("fail", "error"):
            res["unproved"].append((label, "refuted", "numeric"))
            res["violations"].append(dict(source="refutation of " + label, values=h.used, status=st, failures=fails[:6]))
            return True
        return False
    names_holder = {}
    try:
        m, L = load_sym(path, "sym_" + pid)
        fn = getattr(m, task.fn)
        funcs = set()

        def body(cx):
            h = HSym(task.cfg, cx, L)
            names_holder["h"] = h
            cx.hsym = h
            fn(h, **task.cfg)
            return h
        tracer = FuncTracer(funcs)
        sys.setprofile(tracer)
        try:
            results, complete = engine.explore(body, max_paths=task.paths, budget=task.budget,
                                               nra_feas=task.nra_feas)
        finally:
            sys.setprofile(None)
        res["functions"] = sorted(funcs)
        res["complete"] = complete
        for r in results:
            p = r.path
            res["paths"] += 1
            res["decisions"] += len(p.taken)
            hh = getattr(p, "hsym", None)
            if hh is not None:
                names.update(hh.names)
            res["overrides"] = sorted(set(res["overrides"]) | set(p.notes.get("overrides", [])))
            if r.status == "infeasible":
                res["infeasible"] += 1
                continue
            if r.status == "unsupported":
                res["unsupported"].append(repr(r.exc)[:300])
                res.setdefault("tb", (r.tb or "")[-1200:])
            elif r.status == "raise":
                st, mod = solve.query(p.facts, "nra", 3.0, True)
                if st == "unsat":
                    res["infeasible"] += 1
                    continue
                res["raised"].append("%s: %s" % (type(r.exc).__name__, str(r.exc)[:200]))
                res.setdefault("tb", (r.tb or "")[-1200:])
                candidates.append(("raise", values_from_model(mod, names)))
            else:
                res["ok_paths"] += 1
            for label, goal, nf in p.obligations:
                res["obligations"] += 1
                if res["violations"]:
                    if goal is not True:
                        res["unproved"].append((label, "not tried", "after a violation"))
                    else:
                        res["proved"] += 1
                    continue
                facts = p.facts
                rr = solve.prove(facts, goal, timeout=task.timeout, effort=0)
                if rr.status != "proved":
                    cex = p.refute(goal)
                    if cex is not None and confirm(cex, label):
                        continue
                    if "tried" not in real:     # once per task, before the expensive queries
                        real["tried"] = True
                        for k in range(task.samples):
                            if confirm({}, label, k):
                                break
                        if res["violations"]:
                            continue
                    rr = solve.prove(facts, goal, timeout=task.timeout, effort=task.effort)
                if rr.status != "proved" and task.extra.get("eigh_axioms"):
                    env = p.eigh_subst()
                    if env:
                        S.CTX[0] = p
                        try:
                            g2 = S.subst_b(goal, env)
                            rr = solve.prove([S.subst_b(f, env) for f in facts], g2, timeout=task.timeout,
                                             effort=task.effort)
                        finally:
                            S.CTX[0] = None
                    ax = p.eigh_axioms() if rr.status != "proved" else None
                    if ax:
                        rr = solve.prove(facts + ax, goal, timeout=task.timeout, effort=task.effort)
                if rr.status == "proved":
                    res["proved"] += 1
                    res["how"][rr.how] = res["how"].get(rr.how, 0) + 1
                else:
                    if len(res["unproved"]) < 40:
                        res["unproved"].append((label, rr.status, rr.how))
                    else:
                        res["unproved_more"] = res.get("unproved_more", 0) + 1
                    if len(candidates) < 60:
                        candidates.append((label, values_from_model(rr.model, names)))
                    if len(candidates) > 25 or time.time() - t0 > task.budget + 60:
                        task.timeout = min(task.timeout, 1.0)
                        task.effort = min(task.effort, 1)
    except S.Unsupported as e:
        results = []
        res["unsupported"].append(repr(e)[:300])
        res["tb"] = traceback.format_exc()[-1200:]
    except Exception as e:
        results = []
        res["raised"].append("load/engine: %s: %s" % (type(e).__name__, str(e)[:300]))
        res["tb"] = traceback.format_exc()[-1500:]
    res["solver"] = dict(solve.STATS)
    res["symbolic_s"] = time.time() - t0
    # ---- concrete side: reachability witness, encoder validation, replay
    try:
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        cd = os.path.join(VERIF, "checks")
        if cd not in sys.path:
            sys.path.insert(0, cd)
        rm = load_real(path, "real_" + pid)
        rfn = getattr(rm, task.fn)
        settled = not (res["unproved"] or res["unsupported"] or res["raised"] or not res["complete"])
        tried = j = 0
        if not settled and not res["violations"]:
            for label, vals in candidates:
                for j in range(3):
                    st, fails, h = run_concrete(rfn, task.cfg, vals, seedbase + 7000 + tried)
                    tried += 1
                    if st in ("fail", "error"):
                        res["violations"].append(dict(source="solver model for " + label, values=h.used, status=st,
                                                      failures=fails[:6]))
                        break
                if res["violations"]:
                    break
        n = 0
        mism = 0
        k = 0
        while not res["violations"] and n < task.samples and k < task.samples * 6:
            st, fails, h = run_concrete(rfn, task.cfg, {}, seedbase + k)
            k += 1
            if st == "skip":
                continue
            if st == "gap":
                res["unsupported"].append("harness gap: " + fails[0][1])
                break
            n += 1
            if st == "ok":
                res["concrete_ok"] += 1
                res["concrete_checks"] += h.nchecks
                if res["witness"] is None:
                    res["witness"] = {a: round(b, 6) for a, b in list(h.used.items())[:12]}
                if n <= 6 and results and not task.extra.get("no_validation"):
                    v = validate(results, names, h)
                    if v is True:
                        res["validated"] += 1
                    elif v:
                        res["validation_mismatch"].append(v)
            else:
                res["violations"].append(dict(source="sample", values=h.used, status=st, failures=fails[:6]))
                break
        if not settled and not res["violations"]:
            t1 = time.time()
            while not res["violations"] and j < task.tries and time.time() - t1 < 60:
                st, fails, h = run_concrete(rfn, task.cfg, {}, seedbase + 20000 + j)
                j += 1
                if st in ("fail", "error"):
                    res["violations"].append(dict(source="directed replay", values=h.used, status=st,
                                                  failures=fails[:6]))
        res["replays"] = tried + j
    except Exception as e:
        # the harness module cannot even be loaded against the real code
        res["raised"].append("concrete: %s: %s" % (type(e).__name__, str(e)[:300]))
        res["tb"] = traceback.format_exc()[-1500:]
    res["wall"] = time.time() - t0
    return res


def eval_inf(p, env, cache):
    """Evaluate with the opaque infinity kept apart (inf - inf must cancel exactly)."""
    fin, inf = {}, {}
    for m, c in p.items():
        k = [i for i, e in m if S.ATOMS[i].kind == "var" and S.ATOMS[i].data == "INF"]
        if k:
            inf[tuple((i, e) for i, e in m if i != k[0])] = c
        else:
            fin[m] = c
    v = S.evalf(fin, env, cache)
    if inf:
        w = S.evalf(inf, env, cache)
        if abs(w) > 1e-9:
            v += w * 1e18
    return v


def validate(results, names, h):
    """Evaluate the symbolic outputs of the path taken by a concrete run and compare
    them with what the real code returned."""
    env = {}
    for nm, i in names.items():
        if nm in h.used:
            env[i] = h.used[nm]
    for a in S.ATOMS:
        if a.kind == "var" and a.data == "PI2":
            env[a.id] = 2 * np.pi
        if a.kind == "var" and a.data == "INF":
            env[a.id] = 1e18   # stands for infinity (0 * inf must stay 0)
    for r in results:
        if r.status != "ok":
            continue
        try:
            cache = {}
            if not all(S.evalb(f, env, cache) for f in r.path.facts):
                continue
            for (la, x), (lb, y) in zip(r.value.observed, h.observed):
                if la != lb or x.shape != y.shape:
                    return "label/shape mismatch at %s" % la
                for ix in np.ndindex(x.shape):
                    e = x[ix]
                    if isinstance(e, (S.Sym, S.SymBool)):
                        v = eval_inf(S.Sym.of(e).p, env, cache)
                    else:
                        v = float(e)
                    w = float(y[ix])
                    if abs(v) > 1e14 and (np.isinf(w) or np.isnan(w)):
                        continue
                    if np.isnan(v) and np.isfinite(w):
                        return None     # overflow while evaluating the normal form
                    if not (v == w or (np.isnan(v) and np.isnan(w)) or (np.isnan(v) and np.isinf(w)) or
                            abs(v - w) <= 1e-5 * (1 + abs(w))):
                        return "%s%s: engine %r, real %r" % (la, ix, v, w)
            return True
        except (KeyError, S.Unsupported, ZeroDivisionError, OverflowError, ValueError):
            return None
    return None


class FuncTracer(object):
    def __init__(self, acc):
        self.acc = acc

    def __call__(self, frame, event, arg):
        if event == "call":
            c = frame.f_code
            if c.co_filename.startswith(REPO):
                if c.co_name[0] != "<":
                    self.acc.add(os.path.relpath(c.co_filename, REPO) + ":" + c.co_name)


def _worker(args):
    pid, task, seed, q = args
    os.environ["VF_WORKER"] = "1"
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 * 2 ** 30, 6 * 2 ** 30))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    devnull = open(os.devnull, "w")
    try:
        os.dup2(devnull.fileno(), 1)
    except OSError:
        pass
    try:
        r = run_task(pid, task, seed)
    except BaseException as e:
        r = dict(task=task.name, fn=task.fn, cfg=task.cfg, error="%s: %s" % (type(e).__name__, e),
                 tb=traceback.format_exc()[-1500:])
    q.put(r)


def run_tasks(pid, tasks, seed, limit, nproc=8, log=None, stop_early=True):
    """Each task in its own process; returns results in task order."""
    ctx = mp.get_context("fork")
    results = [None] * len(tasks)
    running = {}
    nxt = 0
    viol_t = None
    t_end = time.time() + limit
    while nxt < len(tasks) or running:
        if viol_t and time.time() > viol_t + 20:
            for j in range(nxt, len(tasks)):
                results[j] = dict(task=tasks[j].name, fn=tasks[j].fn, cfg=tasks[j].cfg,
                                  error="stopped: another task found a violation")
            nxt = len(tasks)
        while nxt < len(tasks) and len(running) < nproc and time.time() < t_end:
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_worker, args=((pid, tasks[nxt], seed, q),))
            p.start()
            running[nxt] = (p, q, time.time())
            nxt += 1
        for i, (p, q, ts) in list(running.items()):
            hard = tasks[i].budget * 1.5 + 240
            if not q.empty():
                results[i] = q.get()
                if results[i].get("violations") and not viol_t and stop_early:
                    viol_t = time.time()
                p.join(5)
                if p.is_alive():
                    p.kill()
                del running[i]
                if log:
                    log(results[i])
            elif not p.is_alive():
                time.sleep(0.05)
                if not q.empty():
                    continue
                results[i] = dict(task=tasks[i].name, fn=tasks[i].fn, cfg=tasks[i].cfg,
                                  error="worker ended (exit %s)" % p.exitcode)
                del running[i]
                if log:
                    log(results[i])
            elif viol_t and time.time() > max(viol_t + 20, ts + 20):
                p.kill()
                p.join()
                results[i] = dict(task=tasks[i].name, fn=tasks[i].fn, cfg=tasks[i].cfg,
                                  error="stopped: another task found a violation")
                del running[i]
            elif time.time() > t_end or time.time() - ts > hard:
                p.kill()
                p.join()
                results[i] = dict(task=tasks[i].name, fn=tasks[i].fn, cfg=tasks[i].cfg, error="time limit")
                del running[i]
                if log:
                    log(results[i])
        if time.time() > t_end and nxt < len(tasks) and not running:
            for j in range(nxt, len(tasks)):
                results[j] = dict(task=tasks[j].name, fn=tasks[j].fn, cfg=tasks[j].cfg, error="time limit (not started)")
            nxt = len(tasks)
        time.sleep(0.02)
    return results
