#!/usr/bin/env python3
"""revertfixes.py [COMMIT...]: take each repaired defect of known_findings.txt back in a scratch copy; its property's quick
check has to report it again."""
import os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/revertfixes"
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
os.makedirs(W, exist_ok=True)
d = W + "/r"
shutil.rmtree(d, ignore_errors=True)
subprocess.check_call(["git", "clone", "-q", "/repo", d])
for l in open(V + "/known_findings.txt"):
    m = re.match(r"fixed: property=(C\d+) (\w+) (.*)", l)
    if not m or (sys.argv[1:] and m.group(2) not in sys.argv[1:]): continue
    sh("git -C %s reset -q --hard" % d)
    if sh("git -C %s -c user.name=x -c user.email=x@x revert --no-commit %s" % (d, m.group(2))).returncode:
        sh("git -C %s revert --abort; git -C %s reset -q --hard" % (d, d)); print(m.group(1), m.group(2), "CONFLICT", m.group(3), flush=True); continue
    env = dict(os.environ, BDLIB_REPO=d, BDLIB_BUILD=W + "/b", VERIF_TIER="quick", VERIF_SEED="1")
    x = sh("python3 %s/bin/check.py %s" % (V, m.group(1)), env=env)
    why = [k for k in (x.stdout + x.stderr).splitlines() if "failed:" in k]
    print(m.group(1), m.group(2), "rc=%d" % x.returncode, m.group(3), why[:1], flush=True)
    sh("git -C %s revert --quit; git -C %s reset -q --hard" % (d, d))
shutil.rmtree(W, ignore_errors=True)
