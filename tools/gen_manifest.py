"""Generates /verif/MANIFEST.json from properties.jsonl and the harness files present in checks/."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C31": "drawing goes through matplotlib/networkx object graphs; there is no numeric post-condition the solver could decide over all inputs",
 "C32": "convergence in the limit and statistical recovery are unbounded/asymptotic claims; the bounded ingredients they rest on are claimed as C01-C13",
}
LATER = "no encoding has been built for this part of the code yet"
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    f = os.path.join(V, "checks", p.lower() + ".py")
    if p in NA or not os.path.exists(f):
        na.append(dict(property=p, reason=NA.get(p, LATER)))
        continue
    src = open(f).read()
    ns = {}
    b = re.search(r"^BOUNDS = \((.*?)\)$", src, re.S | re.M)
    bounds = " ".join(re.findall(r'"((?:[^"\\]|\\.)*)"', b.group(1))) if b else ""
    if not b:
        b = re.search(r'^BOUNDS = "(.*)"$', src, re.M)
        bounds = b.group(1)
    bounds = re.sub(r"\s+", " ", bounds)
    checks.append(dict(property=p, quick_cmd="/opt/venv/bin/python check.py %s quick" % p,
        thorough_cmd="/opt/venv/bin/python check.py %s thorough" % p,
        evidence_file="evidence/%s.json" % p,
        technique="symbolic execution of the real Python source + SMT (z3): all inputs within bounds; counterexamples replayed on the real code",
        level="model_checking",
        level_note="Bounded verification over exact reals. Bounds: %s. Trusts: the symbolic numpy/scipy stand-ins in vf/ (validated against "
                   "concrete runs of the real code on every run), the polynomial normaliser and z3. Rounding errors are outside of the claim." % bounds))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python tools/selftest.py", checks=checks, not_applicable=na),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
