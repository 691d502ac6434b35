#!/usr/bin/env python3
"""trybugs.py SPEC.py [NAME...]: SPEC defines BUGS = [(name, property, file, old, new), ...]; each is tried in a scratch copy
of /repo: does it build and pass the tests, and does the property's quick check report it?"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/trybugs"
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
ns = {}; exec(open(sys.argv[1]).read(), ns)
base = json.load(open("/opt/vp/BASELINE.json")); base = base.get("stable") or base.get("passed") or base.get("tests")
bugs = [b for b in ns["BUGS"] if not sys.argv[2:] or b[0] in sys.argv[2:]]
os.makedirs(W, exist_ok=True)
def prep(b):
    name, prop, f, old, new = b
    d = os.path.join(W, name); shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", d])
    p = os.path.join(d, "src", f); s = open(p).read()
    if s.count(old) < 1: return "NOT FOUND"
    open(p, "w").write(s.replace(old, new, 1))
    open(d + ".build.sh", "w").write(open("/opt/vp/build.sh").read().replace("/repo", d))
    open(d + ".test.sh", "w").write(open("/opt/vp/test.sh").read().replace("/repo", d).replace("/opt/vp/build.sh", d + ".build.sh"))
    r = sh("bash %s.build.sh" % d)
    if r.returncode: return "NO BUILD " + "".join(r.stderr.splitlines(True)[-5:])
    sh("bash %s.test.sh %s.json" % (d, d))
    try: passed = json.load(open(d + ".json"))["passed"]
    except Exception: return "NO TESTS"
    miss = [t for t in base if t not in passed]
    return "TESTS CATCH %s" % miss[:2] if miss else None
with ThreadPoolExecutor(4) as ex: res = list(ex.map(prep, bugs))
for b, r in zip(bugs, res):
    d = os.path.join(W, b[0])
    if r is None:
        for prop in b[1].split(","):
            env = dict(os.environ, BDLIB_REPO=d, BDLIB_BUILD=os.path.join(W, "b"), VERIF_TIER="quick", VERIF_SEED="1")
            x = sh("python3 %s/bin/check.py %s" % (V, prop), env=env)
            why = [l for l in (x.stdout + x.stderr).splitlines() if "failed:" in l]
            r = (r or "") + " %s rc=%d %s" % (prop, x.returncode, why[:1])
    print(b[0], "|", r, flush=True)
    sh("rm -rf %s %s.build.sh %s.test.sh %s.json" % (d, d, d, d))
shutil.rmtree(W, ignore_errors=True)
