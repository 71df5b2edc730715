"""tools/seed.py SPEC.py [--norun]: make /verif/seeded/<NAME> from a specification and confirm it in a scratch copy.

SPEC.py defines NAME, PROP, EDITS = [(file, old, new)], DEMO (Python text), NEEDS, BREAKS, and optionally EXTRA = {file: text}.
Confirms: the changed lines are the original repository's; the stable tests pass; the demo passes without and fails with the
patch.  Then runs the property's quick check on the patched /repo and says whether it is caught."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "8719e2f"
ns = {}
exec(open(sys.argv[1]).read(), ns)
name, prop = ns["NAME"], ns["PROP"]
W = f"/tmp/seedwork-{name}"
shutil.rmtree(W, ignore_errors=True)
subprocess.run(["cp", "-a", "/repo", W], check=True)


def sh(c, cwd=W, **k):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)


out = os.path.join(V, "seeded", name)
os.makedirs(out, exist_ok=True)
DEMO_SH = """#!/bin/bash
# exit 0: the property holds here; nonzero: it does not
here="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
PYTHONPATH="$PWD:/opt/venv/lib/pypy3.9/site-packages" TMPDIR="$T" timeout 250 python3-vt -B -W ignore "$here/demo.py" >"$T/out" 2>&1
rc=$?
tail -5 "$T/out"
exit $rc
"""
open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
PRE = 'import contextlib, io, os, sys, tempfile\n'
open(os.path.join(out, "demo.py"), "w").write(PRE + ns["DEMO"].lstrip("\n"))
for f, t in ns.get("EXTRA", {}).items():
    open(os.path.join(out, f), "w").write(t)
json.dump({"property": prop, "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
r = sh(f"bash {out}/demo.sh")
if r.returncode:
    sys.exit(f"demo fails on the unchanged tree:\n{r.stdout}{r.stderr}")
for f, old, new in ns["EDITS"]:
    p = os.path.join(W, f)
    s = open(p).read()
    if s.count(old) != 1:
        sys.exit(f"{f}: {s.count(old)} places match {old!r}")
    open(p, "w").write(s.replace(old, new))
d = sh("git diff")
open(os.path.join(out, "patch.diff"), "w").write(d.stdout)
# whose lines are removed
orig = 0
for f in {e[0] for e in ns["EDITS"]}:
    cur = 0
    for l in sh(f"git diff -U0 -- {f}").stdout.splitlines():
        if l.startswith("@@"):
            a = l.split()[1][1:].split(",")
            n = int(a[1]) if len(a) > 1 else 1
            if n:
                b = sh(f"git blame -s -L {a[0]},+{n} HEAD -- {f}").stdout.splitlines()
                for x in b:
                    if x.startswith("^") or sh(f"git merge-base --is-ancestor {x.split()[0]} {BASE}").returncode == 0:
                        orig += 1
                    else:
                        print("NOT ORIGINAL:", x)
print("original lines changed:", orig)
if not orig:
    sys.exit("changes no original line")
r = sh(f"bash {out}/demo.sh")
if r.returncode == 0:
    sys.exit("demo passes with the patch")
print("demo with patch:", r.returncode, r.stdout.strip()[-300:])
r = sh("git stash -q; git stash apply -q; true")
if "--side" in sys.argv:  # judge in the scratch copy only; the tests are run later
    c = sh(f"VERIF_REPO={W} VERIF_EVIDENCE=/tmp/ev-{name} VERIF_SEED=1 VERIF_TIER=quick python3-vt -B -W ignore checks/{prop}.py quick", cwd=V)
    hit = any(l.startswith(f"VIOLATION property={prop}") for l in c.stdout.splitlines())
    print(name, prop, "CAUGHT" if c.returncode == 1 and hit else f"MISSED rc={c.returncode}")
    print("   ", "\n    ".join(x[:300] for x in (c.stdout + c.stderr[-600:]).strip().splitlines()[:4]))
    shutil.rmtree(W, ignore_errors=True)
    sys.exit()
# stable tests on the patched tree, in place
try:
    a = sh(f"git apply {out}/patch.diff", cwd="/repo")
    if a.returncode:
        sys.exit("does not apply: " + a.stderr)
    sh("bash /opt/vp/build.sh", cwd="/repo")
    t = sh("bash /opt/vp/test.sh /tmp/seed-tests.json", cwd="/repo")
    base = json.load(open("/opt/vp/BASELINE.json"))
    got = json.load(open("/tmp/seed-tests.json"))
    print("tests:", t.stdout.strip().splitlines()[-1])
    if "--norun" not in sys.argv:
        c = sh(f"VERIF_SEED=1 VERIF_TIER=quick python3-vt -B -W ignore checks/{prop}.py quick", cwd=V)
        hit = any(l.startswith(f"VIOLATION property={prop}") for l in c.stdout.splitlines())
        print(name, prop, "CAUGHT" if c.returncode == 1 and hit else f"MISSED rc={c.returncode}")
        print("   ", "\n    ".join(x[:300] for x in (c.stdout + c.stderr[-600:]).strip().splitlines()[:4]))
finally:
    sh("git checkout -- .", cwd="/repo")
    sh("bash /opt/vp/build.sh", cwd="/repo")
    shutil.rmtree(W, ignore_errors=True)
