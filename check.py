#!/opt/venv/bin/python
"""check.py <property> [quick|thorough] | check.py --replay <file>"""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
for k, v in (("OMP_NUM_THREADS", "1"), ("OPENBLAS_NUM_THREADS", "1"), ("MPLBACKEND", "Agg"),
             ("PYTHONDONTWRITEBYTECODE", "1"), ("PYTHONHASHSEED", "0")):
    os.environ.setdefault(k, v)
sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0" and not os.environ.get("VF_REEXEC"):
    os.environ["VF_REEXEC"] = "1"
sys.path.insert(0, VERIF)
REPO = os.environ.get("VF_REPO", "/repo")


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


def preload():
    """Third-party modules, once (workers are forked); then never read bytecode left by other runs."""
    import importlib
    for name in ("z3", "numpy", "scipy.linalg", "scipy.optimize", "scipy.special", "scipy.stats", "scipy.sparse",
                 "sklearn.covariance", "sklearn.cluster", "sklearn.datasets", "sklearn.linear_model", "sklearn.metrics",
                 "sklearn.model_selection", "sklearn.gaussian_process.kernels", "sklearn.utils.extmath",
                 "sklearn.utils.validation", "sklearn.manifold", "sklearn.preprocessing", "networkx", "pandas",
                 "matplotlib.pyplot", "six.moves", "tqdm", "skopt"):
        try:
            importlib.import_module(name)
        except Exception:
            pass
    sys.pycache_prefix = "/nonexistent-pycache"


def main():
    preload()
    from vf import runner
    from vf.harness import load_real, run_concrete
    if sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            d = json.load(f)
        sys.path.insert(0, REPO)
        sys.path.insert(0, os.path.join(VERIF, "checks"))
        m = load_real(runner.check_path(d["property"]), "replay")
        st, fails, h = run_concrete(getattr(m, d["harness"]), d["cfg"], d["values"], d.get("seed", 0))
        print("replay %s %s: %s" % (d["harness"], d["cfg"], st))
        for a, b in fails:
            print("  %s: %s" % (a, b))
        return 1 if st in ("fail", "error") else 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    verbose = bool(os.environ.get("VF_VERBOSE"))
    only = os.environ.get("VF_ONLY")
    t0 = time.time()
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    sys.path.insert(0, REPO)
    m = load_real(runner.check_path(pid), "main_" + pid)
    from vf.runner import Task
    tasks = [t for t in m.tasks(Task, tier)]
    if only:
        tasks = [t for t in tasks if only in t.name]
    limit = 780.0 if tier == "quick" else 6 * 3600.0

    def log(r):
        if verbose:
            print("%-70s paths=%s ob=%s proved=%s unproved=%s unsup=%s raised=%s viol=%s val=%s mism=%s t=%.1f err=%s how=%s" % (
                r["task"], r.get("paths"), r.get("obligations"), r.get("proved"), r.get("unproved", [])[:3],
                r.get("unsupported", [])[:2], r.get("raised", [])[:2], len(r.get("violations", [])), r.get("validated"),
                r.get("validation_mismatch", [])[:1], r.get("wall", 0), r.get("error"), r.get("how")), flush=True)
            if os.environ.get("VF_VERBOSE") == "2" and r.get("tb"):
                print(r["tb"])
            if r.get("violations"):
                print("   ", json.dumps(r["violations"][0], default=str)[:1500])
    results = runner.run_tasks(pid, tasks, seed, limit, log=log, stop_early=not any(k["property"] == pid for k in known_findings()))
    ev = os.environ.get("VF_EVIDENCE") or os.path.join(VERIF, "evidence")
    rdir = os.path.join(ev, "replay")
    os.makedirs(rdir, exist_ok=True)
    kf = known_findings()
    viol = []
    known = []
    for r in results:
        for v in r.get("violations", []):
            label = v["failures"][0][0] if v["failures"] else "?"
            match = [k for k in kf if k["property"] == pid and k["harness"] == r["fn"] and
                     all(r["cfg"].get(a) == b for a, b in k.get("cfg", {}).items()) and
                     all(any(f[0].startswith(l) for l in k["labels"]) for f in v["failures"] if f[0] != "traceback") and
                     all(k.get("contains", "") in f[1] for f in v["failures"][:1])]
            if match:
                known.append((match[0], r, v))
                continue
            name = "%s-%s.json" % (pid, "".join(c if c.isalnum() else "_" for c in r["task"])[:80])
            path = os.path.join(rdir, name)
            with open(path, "w") as f:
                json.dump(dict(property=pid, harness=r["fn"], cfg=r["cfg"], values=v["values"], source=v["source"],
                               failures=v["failures"]), f, indent=1, default=str)
            viol.append((path, r, v))
    inconclusive = []
    for r in results:
        if r.get("error"):
            inconclusive.append("%s: %s" % (r["task"], r["error"]))
        elif r.get("unproved") or r.get("unsupported") or r.get("raised") or not r.get("complete", True):
            inconclusive.append("%s: unproved=%s unsupported=%s raised=%s complete=%s" % (
                r["task"], r.get("unproved")[:4], r.get("unsupported")[:2], r.get("raised")[:2], r.get("complete")))
        elif not r.get("obligations"):
            inconclusive.append("%s: vacuous (no obligation reached)" % r["task"])
        elif not r.get("concrete_ok"):
            inconclusive.append("%s: no concrete witness reached the checks" % r["task"])
        if r.get("validation_mismatch"):
            inconclusive.append("%s: encoder mismatch %s" % (r["task"], r["validation_mismatch"][:2]))
    seen = set()
    for k, r, v in known:
        if k["text"] not in seen:
            seen.add(k["text"])
            print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
    for line in inconclusive:
        print("INCONCLUSIVE %s" % line[:600])
    sv = {}
    for r in results:
        for k, v in (r.get("solver") or {}).items():
            sv[k] = sv.get(k, 0) + v
    how = {}
    for r in results:
        for k, v in (r.get("how") or {}).items():
            how[k] = how.get(k, 0) + v
    funcs = sorted(set(f for r in results for f in r.get("functions", [])))
    doc = getattr(m, "BOUNDS", "")
    evidence = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=sum(r.get("paths", 0) for r in results),
            transitions=sum(r.get("decisions", 0) for r in results),
            traces_validated_against_impl=sum(r.get("validated", 0) for r in results),
            samples=[dict(task=r["task"], witness=r.get("witness"), paths=r.get("paths"), obligations=r.get("obligations"))
                     for r in results[:8]],
            explanation="states = symbolic execution paths; transitions = branch decisions; "
                        "traces = concrete executions of the real code whose outputs match the encoding",
            tasks=len(results), obligations=sum(r.get("obligations", 0) for r in results),
            discharged=sum(r.get("proved", 0) for r in results),
            discharged_by=how,
            solver_queries=sv.get("queries", 0), solver_unsat=sv.get("unsat", 0), solver_sat=sv.get("sat", 0),
            solver_unknown=sv.get("unknown", 0), normal_form_equalities=sv.get("trivial", 0),
            solver_time_s=round(sv.get("time", 0.0), 2), solver="z3 " + _z3v(),
            functions_encoded=funcs, bounds=doc, inconclusive=inconclusive[:60],
            concrete_witness_runs=sum(r.get("concrete_ok", 0) for r in results),
            stubs=sorted(set(o for r in results for o in r.get("overrides", [])))),
        assumptions=getattr(m, "ASSUMPTIONS", []) + [
            "floating point is modelled by exact real arithmetic; rounding is outside of the claim",
            "denominators are nonzero and radicands nonnegative unless the harness forks on them",
            "numpy/scipy/sklearn primitives follow the formulas/contracts in vf/arr.py, vf/linalg.py, vf/shims.py"],
        wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(ev, exist_ok=True)
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    for path, r, v in viol:
        print("counterexample (%s, %s): %s" % (r["task"], v["source"], "; ".join("%s: %s" % tuple(f) for f in v["failures"][:3])[:700]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    print("%s %s: %d tasks, %d paths, %d obligations, %d discharged, %d violations, %d inconclusive, %.1fs" % (
        pid, tier, len(results), evidence["coverage"]["states"], evidence["coverage"]["obligations"],
        evidence["coverage"]["discharged"], len(viol), len(inconclusive), time.time() - t0))
    return 1 if viol else 0


def _z3v():
    from vf import solve
    return solve.z3.get_version_string()


if __name__ == "__main__":
    sys.exit(main())
