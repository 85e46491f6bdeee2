"""mkseed.py SPEC.py : SPEC defines id, property, edits=[(file, old, new)], demo (python source, exit status decides), needs, breaks.
Builds seeded/<id>/ in a scratch copy of /repo and verifies: applies, builds, stable tests pass, demo 0 before / nonzero after."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
base = json.load(open("/opt/vp/BASELINE.json"))
for sp in ns["SPECS"]:
    tmp = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    r = os.path.join(tmp, "repo")
    try:
        sh("cp -a /repo %s" % r)
        sh("git checkout -q -- . && git clean -qfdx -e '*.so'", cwd=r)
        for f, old, new in sp["edits"]:
            p = os.path.join(r, f)
            s = open(p).read()
            assert s.count(old) >= 1, ("missing", sp["id"], f, old)
            if s.count(old) > 1:
                assert sp.get("nth") is not None, ("ambiguous", sp["id"], f, s.count(old))
                parts = s.split(old)
                k = sp["nth"]
                s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            else:
                s = s.replace(old, new)
            open(p, "w").write(s)
        d = os.path.join(V, "seeded", sp["id"])
        os.makedirs(d, exist_ok=True)
        diff = sh("git diff", cwd=r).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(sp["demo"])
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n. /opt/vp/env.sh\nexport PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump(dict(property=sp["property"], needs=sp["needs"], what_it_breaks=sp["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        env = dict(os.environ)
        good = sh("bash %s/demo.sh" % d, cwd="/repo")
        bad = sh("bash %s/demo.sh" % d, cwd=r)
        t = sh(". /opt/vp/env.sh; /opt/venv/bin/python -m pytest -q -x --no-header -p no:cacheprovider regain 2>&1 | tail -15", cwd=r, env=dict(env, PYTHONPATH=r))
        print(sp["id"], sp["property"], "demo unchanged=%d patched=%d" % (good.returncode, bad.returncode), "tests:", t.stdout.strip().splitlines()[-1:])
        if good.returncode != 0:
            print(good.stdout[-800:])
        if "failed" in t.stdout or "42 passed" not in t.stdout:
            print(t.stdout[-600:])
        if bad.returncode == 0:
            print("   NOT DETECTED BY DEMO")
    finally:
        shutil.rmtree(tmp)
