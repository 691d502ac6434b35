#!/usr/bin/env python3
"""check.py ID [quick|thorough] [--replay FILE]: builds the harness against /repo's working tree and decides one property.

exit 0: held on everything explored; exit 1: VIOLATION printed; exit 2: no answer (does not build, internal error).
"""
import concurrent.futures as cf, glob, hashlib, json, os, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BDLIB_REPO", "/repo")
BUILD = os.environ.get("BDLIB_BUILD", os.path.join(VERIF, "build"))
H = os.path.join(VERIF, "harness")
sys.path.insert(0, os.path.join(VERIF, "bin"))
from checks import CHECKS, CONFIGS, GROUPS

def repo_sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))

def tree_hash(flags, files):
    h = hashlib.sha256(repr(flags).encode())
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]

def prune(objd, keep=400):
    try:
        old = sorted(glob.glob(os.path.join(objd, "*.o")), key=os.path.getmtime)[:-keep]
        for o in old:
            if time.time() - os.path.getmtime(o) > 3600:
                os.unlink(o)
    except OSError:
        pass

def build(group, config):
    """Returns the path of the harness binary for this group and configuration."""
    (exe, err), err2 = build1(group, config, []), None
    if not exe and "plainflags" in GROUPS[group]:
        # the library may use std::atomic in a way the stand-in does not offer
        exe, err2 = build1(group, config, GROUPS[group]["plainflags"])
    return exe, err if err2 is None else err + err2

def build1(group, config, more):
    cfg = CONFIGS[config]
    g = GROUPS[group]
    cxx = cfg["cxx"]
    flags = (["-I" + H, "-I" + os.path.join(H, "config"), "-I" + os.path.join(REPO, "src"), "-I/usr/include/tcl",
              "-include", os.path.join(REPO, "src", "stdio-gets-hack.h"), "-DHAVE_CONFIG_H", "-DNDEBUG", "-g1", "-w", "-pthread"]
             + cfg["flags"])
    link = cfg.get("link", []) + ["-ltcl8.6", "-ldl", "-pthread"] + ([] if cfg.get("nowrap") else g.get("link", []))
    own = [os.path.join(H, s) for s in g["src"] + (["pbt.cpp", "alloc.cpp"])]
    hdrs = glob.glob(os.path.join(H, "*.h")) + [os.path.join(H, "config", "config.h")]
    rsrc = [s for s in repo_sources()]
    rh = glob.glob(os.path.join(REPO, "src", "*.h"))
    key = tree_hash([flags, link, cxx, group, more], own + hdrs + rsrc + rh)
    d = os.path.join(BUILD, "%s-%s-%s" % (group, config, key))
    exe = os.path.join(d, "harness")
    if os.path.exists(exe):
        return exe, None
    # drop stale builds of the same group/config
    for old in glob.glob(os.path.join(BUILD, "%s-%s-*" % (group, config))):
        shutil.rmtree(old, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    extra = g.get("flags", []) + more
    # object files are kept by the contents of everything they can depend on
    objd = os.path.join(BUILD, "obj"); os.makedirs(objd, exist_ok=True)
    deps = tree_hash([cxx, flags, extra], hdrs + rh)
    units = [(s, os.path.join(objd, "%s-%s-%s.o" % (os.path.basename(s), config, tree_hash([deps], [s])))) for s in own + rsrc]
    def comp(u):
        if os.path.exists(u[1]):
            return 0, u[0], ""
        tmp = "%s.%d.%d.tmp" % (u[1], os.getpid(), threading.get_ident())
        r = subprocess.run([cxx] + flags + extra + ["-c", u[0], "-o", tmp], capture_output=True, text=True)
        if r.returncode == 0:
            os.rename(tmp, u[1])
        elif os.path.exists(tmp):
            os.unlink(tmp)
        return r.returncode, u[0], r.stderr
    # biggest first
    units.sort(key=lambda u: -os.path.getsize(u[0]))
    with cf.ThreadPoolExecutor(max_workers=max(4, os.cpu_count() or 4)) as ex:
        for rc, src, err in ex.map(comp, units):
            if rc:
                shutil.rmtree(d, ignore_errors=True)
                return None, "does not compile: %s\n%s" % (src, err[-4000:])
    r = subprocess.run([cxx] + flags + extra + [u[1] for u in units] + ["-o", exe + ".tmp"] + link, capture_output=True, text=True)
    if r.returncode:
        shutil.rmtree(d, ignore_errors=True)
        return None, "does not link:\n" + r.stderr[-4000:]
    prune(objd)
    os.rename(exe + ".tmp", exe)
    return exe, None

def san_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:hard_rss_limit_mb=3500:detect_stack_use_after_return=1:quarantine_size_mb=16:symbolize=0:handle_abort=1:alloc_dealloc_mismatch=0"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:print_stacktrace=0"
    e["TSAN_OPTIONS"] = "exitcode=99:halt_on_error=1:ignore_noninstrumented_modules=1"
    e["LC_ALL"] = "C"
    e["TZ"] = "UTC"
    return e

def main():
    args = [a for a in sys.argv[1:]]
    replay = None
    if "--replay" in args:
        i = args.index("--replay"); replay = args[i + 1]; del args[i:i + 2]
    cid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = CHECKS[cid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "evidence", "replays"); os.makedirs(rdir, exist_ok=True)
    work = os.path.join(BUILD, "work.%d" % os.getpid()); os.makedirs(work, exist_ok=True)
    try:
        return run(cid, tier, seed, chk, t0, rdir, work, replay)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def run(cid, tier, seed, chk, t0, rdir, work, replay):
    # parts: (group, subproperty) x configs
    configs = os.environ["BDLIB_CONFIGS"].split(",") if os.environ.get("BDLIB_CONFIGS") else chk["configs"][tier]
    nruns = sum(1 for c in configs for g, s in chk["parts"] if s not in chk.get("only", {}) or c in chk["only"][s])
    budget = (150.0 if tier == "quick" else 660.0) / nruns
    for old in glob.glob(os.path.join(rdir, "%s[.-]*.replay" % cid)):
        if not replay:
            os.unlink(old)
    results, violations, errors = [], [], []
    env = san_env()
    if replay:
        first = open(replay).readline()
        sub = first.split()[2]; cfgname = first.split(" config ")[1].split()[0]
        grp = [g for g, s in chk["parts"] if s == sub][0]
        exe, err = build(grp, cfgname)
        if not exe:
            print(err); return 2
        rerun = [l for l in open(replay) if l.startswith("rerun:")]
        if rerun:
            r = subprocess.run([exe] + rerun[0].split()[1:] + ["--workdir", work, "--replaydir", work], env=env)
            return 1 if r.returncode in (1, 4) else r.returncode
        r = subprocess.run([exe, "--prop", sub, "--replay", replay, "--workdir", work], env=env)
        return r.returncode
    # build everything first, in parallel over (group, config)
    jobs = []
    for config in configs:
        for grp in sorted(set(g for g, s in chk["parts"])):
            jobs.append((grp, config))
    exes = {}
    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        for (j, (exe, err)) in zip(jobs, ex.map(lambda j: build(*j), jobs)):
            if not exe:
                print(err, file=sys.stderr)
                return 2
            exes[j] = exe
    nproc = os.cpu_count() or 4
    for config in configs:
        for grp, sub in chk["parts"]:
            if sub in chk.get("only", {}) and config not in chk["only"][sub]:
                continue
            if violations and time.time() - t0 > 200:
                continue  # slow failures (hangs): one is enough
            exe = exes[(grp, config)]
            out = os.path.join(work, "out.json")
            scale = CONFIGS[config].get("scale", 1.0)
            ncases = case_count(exe, sub, tier, env)
            if config == "tsan":
                pre = tsan_prefix(exe, env)
                if pre is None:
                    errors.append("%s [%s]: ThreadSanitizer cannot run here, skipped" % (sub, config))
                    continue
            else:
                pre = []
            hseed = seed * 16 + list(CONFIGS).index(config)
            cmd = pre + [exe, "--prop", sub, "--seed", str(hseed), "--config", config, "--cases", str(max(8, int(ncases * scale))),
                   "--workers", str(min(8, nproc)), "--time", str(budget), "--out", out, "--replaydir", rdir, "--workdir", work]
            if os.path.exists(out):
                os.unlink(out)
            r = subprocess.run(cmd, env=env)
            if r.returncode == 4:
                # failed, but not when the one case was replayed in a fresh process: it may need the cases before it
                r2 = subprocess.run(cmd, env=env)
                if r2.returncode in (1, 4):
                    d = json.load(open(out))
                    if r2.returncode == 4:
                        rp = os.path.join(rdir, "%s-%s-%d-sequence.replay" % (sub, config, seed))
                        with open(rp, "w") as f:
                            f.write("# property %s (needs the cases before it) config %s seed %d case %d\n# failure: %s\nrerun: --prop %s --seed %d --cases %s --workers %s\n"
                                    % (sub, config, hseed, d["violation"]["case"], d["violation"]["message"], sub, hseed, cmd[cmd.index("--cases") + 1], cmd[cmd.index("--workers") + 1]))
                        d["violation"]["replay"] = rp
                    results.append(d)
                    violations.append((sub, config, d["violation"]))
                    continue
            if r.returncode == 1:
                d = json.load(open(out)); results.append(d)
                violations.append((sub, config, d["violation"]))
            elif r.returncode == 0:
                results.append(json.load(open(out)))
            elif r.returncode == 4:
                d = json.load(open(out)); results.append(d)
                errors.append("%s [%s]: a failure that did not reproduce on replay: %s" % (sub, config, d["violation"]["message"]))
            else:
                errors.append("%s [%s]: harness exit status %d" % (sub, config, r.returncode))
        if violations:
            break
    ev = evidence(cid, tier, seed, chk, results, violations, errors, time.time() - t0)
    with open(os.path.join(VERIF, "evidence", cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for sub, config, v in violations:
        print("%s [%s]: %s" % (sub, config, v["message"]))
        print("VIOLATION property=%s replay=%s" % (cid, v["replay"]))
    for e in errors:
        print(e, file=sys.stderr)
    for line in open(os.path.join(VERIF, "known_findings.txt")):
        if line.startswith("known: property=%s " % cid):
            print("KNOWN-FINDING: " + line[len("known: "):].strip())
    if violations:
        return 1
    if any("harness exit" in e for e in errors):
        return 2
    return 0

def tsan_prefix(exe, env):
    """ThreadSanitizer needs a memory layout that some kernels' address randomisation does not give."""
    for pre in ([], ["setarch", "-R"]):
        try:
            if subprocess.run(pre + [exe, "--list"], env=env, capture_output=True).returncode == 0:
                return pre
        except OSError:
            pass
    return None

_counts = {}
def case_count(exe, sub, tier, env):
    if exe not in _counts:
        t = subprocess.run([exe, "--list"], env=env, capture_output=True, text=True).stdout
        if not t:
            t = subprocess.run(["setarch", "-R", exe, "--list"], env=env, capture_output=True, text=True).stdout
        _counts[exe] = {l.split("\t")[0]: (int(l.split("\t")[2]), int(l.split("\t")[3])) for l in t.splitlines()}
    return _counts[exe].get(sub, (8, 8))[0 if tier == "quick" else 1]

def evidence(cid, tier, seed, chk, results, violations, errors, wall):
    labels, samples, per = {}, [], []
    for d in results:
        per.append({k: d[k] for k in ("id", "name", "config", "evaluations", "nontrivial", "distinct_nontrivial", "wall_s", "time_capped", "choice_overflow")})
        for k, v in d["labels"].items():
            labels[k] = labels.get(k, 0) + v
        if d["config"] == results[0]["config"]:
            samples += d["samples"][:3]
    return {
        "property": cid, "tier": tier, "seed": seed, "level": chk.get("level", "exploration"),
        "coverage": {
            "evaluations": sum(d["evaluations"] for d in results),
            "distinct_nontrivial": sum(d["distinct_nontrivial"] for d in results if d["config"] == results[0]["config"]) if results else 0,
            "rule": " | ".join(sorted(set("%s: %s" % (d["id"], d["rule"]) for d in results))),
            "samples": samples[:8],
            "classes": dict(sorted(labels.items())),
            "runs": per,
        },
        "assumptions": chk.get("assumptions", []) + [
            "cases are a sample: a pass means no counterexample among the generated ones",
            "compiled from /repo/src with the harness's own config.h (the features configure finds here), NDEBUG as in the repository's build"],
        "wall_s": round(wall, 2),
        "violations": len(violations),
        "violation_details": [{"part": s, "config": c, "message": v["message"], "replay": v["replay"]} for s, c, v in violations],
        "notes": errors,
    }

if __name__ == "__main__":
    sys.exit(main())
