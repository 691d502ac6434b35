#!/usr/bin/env python3
"""seedtest.py [--nocheck] [ID...]: for every planted bug, in scratch copies of /repo's HEAD: it applies, builds, passes the
tests, its demonstration passes without it and fails with it, and what its property's quick check says."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedtest"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def scratch(name):
    d = os.path.join(W, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(W, exist_ok=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", d])
    return d
def build(d):
    s = open("/opt/vp/build.sh").read().replace("/repo", d)
    open(d + ".build.sh", "w").write(s)
    return sh("bash %s.build.sh" % d)
def test(d):
    s = open("/opt/vp/test.sh").read().replace("/repo", d).replace("/opt/vp/build.sh", d + ".build.sh")
    open(d + ".test.sh", "w").write(s)
    sh("bash %s.test.sh %s.json" % (d, d))
    r = json.load(open(d + ".json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base.get("stable") or base.get("passed") or base.get("tests")
    return [t for t in want if t not in r["passed"]]
def main():
    args = sys.argv[1:]
    nocheck = "--nocheck" in args
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(os.path.join(V, "seeded")))
    clean = scratch("clean"); b = build(clean); assert b.returncode == 0, b.stderr
    mut = scratch("mut"); build(mut)
    bad = 0
    for i in ids:
        sd = os.path.join(V, "seeded", i)
        meta = json.load(open(sd + "/meta.json"))
        sh("git -C %s checkout -q -- ." % mut)
        ap = sh("git -C %s apply %s/patch.diff" % (mut, sd))
        res = []
        if ap.returncode:
            print(i, "DOES NOT APPLY", ap.stderr); bad += 1; continue
        b = build(mut)
        if b.returncode:
            print(i, "DOES NOT BUILD", b.stderr[-1500:]); bad += 1; continue
        miss = test(mut)
        if miss: res.append("TESTS FAIL %s" % miss[:3])
        r0 = sh("bash %s/demo.sh" % sd, cwd=clean)
        r1 = sh("bash %s/demo.sh" % sd, cwd=mut)
        if r0.returncode: res.append("DEMO FAILS ON CLEAN rc=%d %s %s" % (r0.returncode, r0.stdout[-300:], r0.stderr[-600:]))
        if not r1.returncode: res.append("DEMO PASSES WITH BUG")
        if r1.returncode in (98, 99): res.append("DEMO DOES NOT COMPILE WITH BUG")
        if not nocheck and not res:
            e = dict(os.environ, BDLIB_REPO=mut, BDLIB_BUILD=W + "/b", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
            r = sh("python3 %s/bin/check.py %s quick" % (V, meta["property"]), env=e)
            v = [l for l in r.stdout.splitlines() if " [" in l]
            res.append(("caught: " + (v[0][:150] if v else "")) if r.returncode == 1 else "MISSED rc=%d %s" % (r.returncode, r.stderr[-300:] if r.returncode == 2 else ""))
        print(i, meta["property"], "; ".join(res) or "ok (demo: %s)" % r1.stdout.strip()[:80], flush=True)
    shutil.rmtree(W, ignore_errors=True)
main()
