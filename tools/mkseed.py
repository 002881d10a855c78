#!/usr/bin/env python3
"""mkseed.py SPEC.py [ids]: turn each spec (id, property, edits [(file, old, new)], demo, needs, breaks) into
/verif/seeded/<id>/ after confirming in a scratch copy of /repo that the tests pass and the demo flips; then run the
property's check on the scratch copy and say whether it is caught."""
import json, os, runpy, shutil, subprocess, sys

spec = runpy.run_path(sys.argv[1])["SEEDS"]
only = sys.argv[2].split(",") if len(sys.argv) > 2 else None
base = json.load(open("/opt/vp/BASELINE.json"))
X = "/tmp/seedx"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def names(x):
    for k in ("passed", "pass", "stable", "tests"):
        if k in x:
            return set(x[k]) if not isinstance(x[k], dict) else {t for t, v in x[k].items() if v in ("passed", "pass", True)}
    return set()


for s in spec:
    if only and s["id"] not in only:
        continue
    d = "/verif/seeded/" + s["id"]
    shutil.rmtree(X, ignore_errors=True)
    sh("cp -a /repo " + X)
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD:$PYTHONPATH" MPLBACKEND=Agg\n'
                                    'exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    r0 = sh("bash %s/demo.sh" % d, cwd=X)
    for f, a, b in s["edits"]:
        p = X + "/pypfopt/" + f
        t = open(p).read()
        assert t.count(a) == 1, (s["id"], f, t.count(a), a)
        open(p, "w").write(t.replace(a, b))
    open(d + "/patch.diff", "w").write(sh("git -C %s diff" % X).stdout)
    r1 = sh("bash %s/demo.sh" % d, cwd=X)
    ts = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + X).replace("/opt/vp/work/junit.xml", X + "/junit.xml")
    open(X + "/t.sh", "w").write(ts)
    sh("bash %s/t.sh %s/out.json" % (X, X), env=dict(os.environ, PYTHONPATH=X))
    want, got = names(base), names(json.load(open(X + "/out.json")))
    tests = "tests ok" if not want - got else "TESTS FAIL %s" % sorted(want - got)[:3]
    c = sh("VF_REPO=%s /opt/venv/bin/python run.py check %s quick" % (X, s["property"]), cwd="/verif")
    v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
    ok = r0.returncode == 0 and r1.returncode != 0
    print("%s [%s] demo %s->%s %s | tests: %s | check rc %d %s" % (
        s["id"], s["property"], r0.returncode, r1.returncode, "" if ok else "BAD DEMO " + r0.stderr[-300:],
        tests, c.returncode, v[:1] or c.stdout[-200:]), flush=True)
    shutil.rmtree(X, ignore_errors=True)
