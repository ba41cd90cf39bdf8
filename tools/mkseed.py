"""mkseed.py SPEC.py...: creates /verif/seeded/<id>/ from a spec (ID, PROP, EDITS=[(file, old, new)], DEMO (C++), NEEDS,
BREAKS, FLAGS), in a scratch copy of /repo; keeps it only when it builds, passes the stable tests and the demo tells the
two trees apart; reports whether the property's check notices."""
import sys, os, json, subprocess, shutil, tempfile
V = "/verif"
def sh(c, cwd=None, env=None, t=900):
    p = subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode("utf8", "replace")
W = "/tmp/xseed"; R = W + "/repo"
def prepare():
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(R):
        sh("cp -a /repo %s" % R)
        shutil.rmtree(R + "/_build", True)
        sh("mkdir -p %s/vp && cp -a /opt/vp/. %s/vp/ && sed -i 's#/repo#%s#g; s#/opt/vp/results.py#%s/vp/results.py#; s#^. /opt/vp/configure.sh#. %s/vp/configure.sh#; s#/opt/vp/cmake/hook#%s/vp/cmake/hook#' %s/vp/*.sh %s/vp/results.py" % (W, W, R, W, W, W, W, W))
        if os.path.exists(W + "/vp/cmake"): sh("grep -rl '/repo' %s/vp/cmake | xargs -r sed -i 's#/repo#%s#g'" % (W, R))
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq -e _build", cwd=R)
DEMO_SH = """#!/bin/sh
# run in the repository root: exit 0 when the property holds for this input
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
%s "$D/demo.cpp" -o "$T/demo" %s || exit 1
%s "$T/demo"
"""
def demo(d):
    rc, out = sh("timeout 300 sh %s/demo.sh" % d, cwd=R)
    return rc, out
def main(spec):
    g = {}; exec(open(spec).read(), g)
    prepare()
    d = os.path.join(V, "seeded", g["ID"])
    T = os.path.join(W, "d_" + g["ID"]); shutil.rmtree(T, True); os.makedirs(T)
    open(T + "/demo.cpp", "w").write(g["DEMO"].lstrip())
    open(T + "/demo.sh", "w").write(g.get("DEMO_SH") or DEMO_SH % (g.get("CC", "g++") + " -std=c++20 -O1 -I \"$PWD/include\" " + g.get("FLAGS", ""), g.get("LIBS", ""), g.get("RUN", "timeout 60")))
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(T + "/meta.json", "w"), indent=1)
    rc, out = demo(T)
    if rc: print(g["ID"], "DEMO FAILS ON CLEAN", out[-1500:]); return
    for f, a, b in g["EDITS"]:
        p = os.path.join(R, f); s = open(p).read()
        if s.count(a) != 1: print(g["ID"], "edit text found", s.count(a), "times:", a); return
        open(p, "w").write(s.replace(a, b))
    rc, diff = sh("git diff", cwd=R); open(T + "/patch.diff", "w").write(diff)
    rc, base = sh("git log --format=%h --abbrev=7 --diff-filter=A -- README.md | tail -1", cwd="/repo")
    import re
    for f in {e[0] for e in g["EDITS"]}:
        rc, dd = sh("git diff -U0 %s" % f, cwd=R)
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", dd, re.M):
            n = int(m[2]) if m[2] is not None else 1
            if n:
                rc, bl = sh("git blame -s -L %s,+%d HEAD -- %s" % (m[1], n, f), cwd="/repo")
                for l in bl.splitlines():
                    if not l.startswith("^"): print(g["ID"], "CHANGES A LINE OF A FIX:", l[:100])
    rc, out = sh("bash %s/vp/build.sh" % W)
    if rc: print(g["ID"], "DOES NOT BUILD", out[-1500:]); return
    rc, out = sh("bash %s/vp/test.sh %s/o.json" % (W, W))
    o = json.load(open(W + "/o.json")); b = json.load(open("/opt/vp/BASELINE.json"))
    miss = set(b["stable"]) - set(o["passed"])
    if miss: print(g["ID"], "BREAKS TESTS", sorted(miss)); return
    rc, out = demo(T)
    if not rc: print(g["ID"], "DEMO PASSES WITH THE CHANGE", out[-500:]); return
    shutil.rmtree(d, True); shutil.copytree(T, d)
    e = dict(os.environ, XME_REPO=R, VERIF_HOME=W + "/vh")
    os.makedirs(W + "/vh", exist_ok=True)
    sh("ln -sfn %s/build %s/vh/build; ln -sfn %s/witness %s/vh/witness; ln -sfn %s/known-findings.txt %s/vh/known-findings.txt" % (V, W, V, W, V, W))
    rc2, out2 = sh("python3-vt -m sa.run %s quick" % g["PROP"], cwd=V, env=e)
    print(g["ID"], "kept; demo rc", rc, "; check", g["PROP"], "CAUGHT" if rc2 == 1 else "MISSED rc=%d" % rc2)
    ls = [l for l in out2.splitlines()]
    print("    " + "\n    ".join(ls[:4])[:700])
for s in sys.argv[1:]: main(s)
