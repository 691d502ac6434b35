#!/usr/bin/env python3
"""coverage.py OUTDIR: line/branch coverage of /repo/src by all harness parts with few cases (to find untouched API)."""
import os, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O = sys.argv[1]; os.makedirs(O, exist_ok=True)
os.environ["BDLIB_BUILD"] = O + "/b"
sys.path.insert(0, V + "/bin")
import check, checks
checks.CONFIGS["cov"] = dict(cxx="clang++", flags=["-std=c++14", "-O0", "-fprofile-instr-generate", "-fcoverage-mapping"])
exes = []
for g in checks.GROUPS:
    exe, err = check.build(g, "cov"); assert exe, err
    exes.append(exe)
    parts = sorted(set(s for k in checks.CHECKS.values() for gg, s in k["parts"] if gg == g and "thread" not in s))
    for s in parts:
        w = O + "/w"; os.makedirs(w, exist_ok=True)
        subprocess.run([exe, "--prop", s, "--seed", "5", "--config", "cov", "--cases", "3000", "--workers", "8", "--time", "60", "--out", w + "/o.json", "--replaydir", w, "--workdir", w],
                       env=dict(os.environ, LLVM_PROFILE_FILE=O + "/p/%s-%%8m.profraw" % s, LC_ALL="C"), stdout=subprocess.DEVNULL)
import shutil, re
pd = shutil.which("llvm-profdata-18") or shutil.which("llvm-profdata")
tool = shutil.which("llvm-cov-18") or shutil.which("llvm-cov")
cov, br = {}, {}
src = glob.glob("/repo/src/*.h") + glob.glob("/repo/src/*.cpp")
for e in exes:
    g = os.path.basename(os.path.dirname(e)).split("-")[0]
    parts = set(s for k in checks.CHECKS.values() for gg, s in k["parts"] if gg == g)
    fs = [f for p in parts for f in glob.glob(O + "/p/%s-*.profraw" % p) if os.path.getsize(f)]
    fs = [f for f in fs if subprocess.run([pd, "show", f], capture_output=True).returncode == 0]
    print(g, "no profile:", parts - set(re.sub(r"-[0-9_]+\.profraw$", "", os.path.basename(f)) for f in fs))
    if not fs: continue
    subprocess.check_call([pd, "merge", "-sparse", *fs, "-o", O + "/g.profdata"])
    for s in src:
        r=subprocess.run([tool,"show",e,"-instr-profile="+O+"/g.profdata","-show-instantiations=false","-show-branches=count",s],capture_output=True,text=True).stdout
        ln=0
        for l in r.split('\n'):
            m=re.match(r'\s*(\d+)\|\s*([\d.]+[kMGE]?)?\|(.*)',l)
            if m:
                ln=int(m[1])
                if m[2] is not None:
                    v=0 if m[2]=='0' else 1
                    k=(os.path.basename(s),ln); cov[k]=(max(v,cov.get(k,(0,))[0]),m[3])
            m=re.search(r'Branch \((\d+):(\d+)\): \[True: (\S+), False: (\S+)\]',l)
            if m:
                k=(os.path.basename(s),int(m[1]),int(m[2])); a=br.get(k,[0,0])
                a[0]|=m[3]!='0'; a[1]|=m[4].rstrip(']')!='0'; br[k]=a
for k in sorted(cov):
    if not cov[k][0]: print("%s:%d %s"%(k[0],k[1],cov[k][1]))
print("--- branches")
for k in sorted(br):
    if br[k]!=[1,1] and cov.get((k[0],k[1]),(1,))[0]: print(k,br[k],cov.get((k[0],k[1]),(0,''))[1].strip())
