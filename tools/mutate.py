#!/usr/bin/env python3
"""mutate.py SEED COUNT LOG [FILE...]: small random edits of /repo's sources, in a scratch copy; which checks notice?

For each: the harness groups are built (asan) and every property part is run with a share of its quick cases. An edit nothing
notices is then run through the repository's tests; one that passes those too is a survivor, to be read by a person
(many change nothing that can be observed)."""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("MUTW", "/tmp/mutw")
sys.path.insert(0, os.path.join(V, "bin"))
os.environ["BDLIB_REPO"] = W + "/r"
os.environ["BDLIB_BUILD"] = W + "/b"
import check
from checks import CHECKS
OPS = [(r"(?<![<>=!+\-*/&|-])<(?![<=])(?=[^>]*$|\s)", "<="), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\bif \((?!!)", "if (!"), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\boffset\b", "0"), (r"\blength\(\)", "capacity()"),
       (r"\+\+", "--"), (r" \+= ", " -= "), (r" -= ", " += "), (r"std::move\((\w+)\)", r"\1"), (r"\bsublen\b", "length()"), (r"\bslen\b", "n"), (r"\bnpos\b", "0"), (r"\bconst_cast<void\*>\(var\)", "nullptr"), (r"\bcbegin\(\)", "cend()"), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"\breturn;", ";")]
def candidates(files):
    out = []
    for f in files:
        lines = open(os.path.join("/repo/src", f)).read().split("\n")
        incomment = False
        for i, l in enumerate(lines):
            s = l.strip()
            if incomment or s.startswith("/*"):
                incomment = "*/" not in s
                continue
            if not s or s.startswith(("//", "#", "*", "template", "typedef", "friend", "using", "class", "struct", "assert", "-1,", "0x")) or re.match(r"[-0-9, ]+$", s):
                continue
            code = l.split("//")[0]
            for pat, rep in OPS:
                for m in re.finditer(pat, code):
                    n = code[:m.start()] + m.expand(rep) + code[m.end():]
                    if n != l: out.append((f, i, n))
            if s.endswith(";") and not re.match(r"(return|virtual|static|const|size_t|auto|int|char|String|inline|mutable|explicit|bool|void|Tcl_Obj|else|T |ArrayRef|pointer|struct)\b", s) and s not in ("};",) and l.count("(") == l.count(")"):
                out.append((f, i, re.match(r"\s*", l).group() + ";"))
    return out
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def run_one(exe, sub, cases, secs):
    work = W + "/work-" + sub; os.makedirs(work, exist_ok=True)
    try:
        r = subprocess.run([exe, "--prop", sub, "--seed", "77", "--config", "asan", "--cases", str(cases), "--workers", "1", "--time", str(secs), "--out", work + "/o.json", "--replaydir", work, "--workdir", work],
                       env=check.san_env(), capture_output=True, timeout=secs * 8 + 60)
    except subprocess.TimeoutExpired:
        return sub, 99, "timeout"
    msg = ""
    try: msg = json.load(open(work + "/o.json"))["violation"]["message"][:120]
    except Exception: pass
    shutil.rmtree(work, ignore_errors=True)
    return sub, r.returncode, msg
def main():
    seed, count, log = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    files = sys.argv[4:] or [f for f in sorted(os.listdir("/repo/src")) if f.endswith((".h", ".cpp"))]
    rnd = random.Random(seed)
    c = candidates(files); rnd.shuffle(c)
    sh("rm -rf %s/r; git clone -q /repo %s/r" % (W, W))
    s = open("/opt/vp/build.sh").read().replace("/repo", W + "/r"); open(W + "/build.sh", "w").write(s)
    s = open("/opt/vp/test.sh").read().replace("/repo", W + "/r").replace("/opt/vp/build.sh", W + "/build.sh"); open(W + "/test.sh", "w").write(s)
    base = json.load(open("/opt/vp/BASELINE.json")); base = base.get("stable") or base.get("passed") or base.get("tests")
    parts = sorted(set((g, s) for k in CHECKS.values() for g, s in k["parts"] if "thread" not in s))
    done = 0
    out = open(log, "a")
    for f, i, new in c:
        if done >= count: break
        p = os.path.join(W, "r/src", f)
        src = open(os.path.join("/repo/src", f)).read().split("\n")
        old = src[i]; src[i] = new
        open(p, "w").write("\n".join(src))
        res = None
        if sh("printf '#include \"String.h\"\n#include \"Array.h\"\n#include \"HashTable.h\"\n#include \"Stream.h\"\n#include \"ScriptInterpTCL.h\"\n#include \"%s\"\n' | clang++ -std=c++14 -w -fsyntax-only -DHAVE_CONFIG_H -I%s/r/src -I%s/harness/config -I/usr/include/tcl -xc++ -" % (f, W, V)).returncode:
            open(p, "w").write(open(os.path.join("/repo/src", f)).read())
            continue
        try:
            bad = None; caught = []
            groups = sorted(set(g for g, s in parts))
            with cf.ThreadPoolExecutor(7) as ex:
                exes = dict(zip(groups, ex.map(lambda g: check.build(g, "asan"), groups)))
            if any(e[0] is None for e in exes.values()): continue
            done += 1
            def job(x):
                if caught: return
                g, s = x
                n = check.case_count(exes[g][0], s, "quick", check.san_env())
                r = run_one(exes[g][0], s, max(8, n // 5), 4)
                if r[1] != 0: caught.append(r)
            with cf.ThreadPoolExecutor(8) as ex: list(ex.map(job, parts))
            if caught: res = "caught by %s rc=%d %s" % caught[0]
            else:
                b = sh("bash %s/build.sh" % W)
                sh("bash %s/test.sh %s/t.json" % (W, W))
                try: passed = json.load(open(W + "/t.json"))["passed"]
                except Exception: passed = []
                miss = [t for t in base if t not in passed]
                res = "TESTS ONLY %s" % miss[:2] if miss else "SURVIVOR"
        finally:
            open(p, "w").write(open(os.path.join("/repo/src", f)).read())
        out.write("%s:%d: %s  =>  %s\n    %s\n" % (f, i + 1, old.strip(), new.strip(), res)); out.flush()
    shutil.rmtree(W + "/b", ignore_errors=True)
if __name__ == "__main__": main()
