#!/usr/bin/env python3
"""Decide one property: build /repo's current sources + the property's harness, run it under the
monitors, compare against the known-findings file, write evidence/<id>.json.
usage: check.py <ID> [quick|thorough]     exit 0 held / 1 VIOLATION / 2 error of the check
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, HERE)
from specs import SPECS

BUILD = os.environ.get("VF_BUILD", os.path.join(HERE, ".build"))
CACHE = os.path.join(HERE, ".cache", "ccache")
JOBS = int(os.environ.get("VF_JOBS", "8"))

# sources that need CERN ROOT: compiled only for harnesses that ask for "all" (against vf/rootstub)
ROOTISH = set("BinDT Chi2Estimator CoherentSum DalitzIntegrator DiscreteDistribution ErrorPropagator EventList EventListSIMD FastDT FitFraction Generator IncoherentSum Integrator Kinematics LASSO MatrixElement PartialWidthConstraint PhaseSpace PolarisedSum RecursivePhaseSpace TreePhaseSpace Projection ThreeBodyCalculators TreeReader".split())
NEVER = set("Minimiser FitResult".split())

COMMON = ["-std=c++17", "-fPIC", "-w", "-mfma", "-mavx2", "-DHAVE_AVX2_INSTRUCTIONS", "-DENABLE_FITTING=OFF", "-DUSE_MVEC=1",
          '-DAMPGENROOT="/repo"', '-DAMPGEN_CXX="/usr/bin/g++"', '-DAMPGEN_CXX_FLAGS=""', '-DAMPGENROOT_CMAKE="/repo/options"', "-ftree-vectorize"]
VARIANTS = {
  "asan":   dict(f=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr",
                    "-DENABLE_AVX=1", "-DINSTRUCTION_SET=2", '-DAMPGEN_OPENMP_FLAGS=""'], l=["-fsanitize=address,undefined"]),
  "asans":  dict(f=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr",
                    "-DENABLE_AVX=0", "-DINSTRUCTION_SET=0", '-DAMPGEN_OPENMP_FLAGS=""'], l=["-fsanitize=address,undefined"]),
  "tsan":   dict(f=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-DENABLE_AVX=1", "-DINSTRUCTION_SET=2", '-DAMPGEN_OPENMP_FLAGS=""'], l=["-fsanitize=thread"]),
  # as shipped: AVX2d, fast-math, OpenMP
  "rel":    dict(f=["-O2", "-ffast-math", "-fno-finite-math-only", "-fopenmp", "-DENABLE_AVX=1", "-DINSTRUCTION_SET=2", '-DAMPGEN_OPENMP_FLAGS="-fopenmp"'], l=["-fopenmp"]),
}
ENV = dict(os.environ, LC_ALL="C.UTF-8", CCACHE_DIR=CACHE, CCACHE_NOHASHDIR="1", CCACHE_BASEDIR="/", CCACHE_MAXSIZE="4G", CCACHE_SLOPPINESS="time_macros",
           ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=1:detect_odr_violation=0",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1",
           TSAN_OPTIONS="halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:exitcode=66")
for k in ("CXX", "AMPGEN_CXX", "AMPGENROOT", "CXXFLAGS", "LD_PRELOAD"): ENV.pop(k, None)

class CheckError(Exception): pass

def ccache():
    return ["ccache"] if shutil.which("ccache") else []

def sources(kind, extra=()):
    all_ = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    out = []
    for s in all_:
        n = os.path.splitext(os.path.basename(s))[0]
        if n in NEVER and n not in extra: continue
        if kind != "all" and n in ROOTISH and n not in extra: continue
        out.append(s)
    if isinstance(kind, (list, tuple)):
        out = [s for s in out if os.path.splitext(os.path.basename(s))[0] in kind or os.path.splitext(os.path.basename(s))[0] in extra]
    return out

def compile_one(src, obj, flags):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    cmd = ccache() + ["g++"] + flags + ["-c", src, "-o", obj]
    p = subprocess.run(cmd, env=ENV, capture_output=True, text=True, errors="replace")
    if p.returncode and ccache():          # never let the cache decide
        p = subprocess.run(cmd[1:], env=ENV, capture_output=True, text=True, errors="replace")
    return src, p.returncode, p.stderr

def build(pid, run):
    v = VARIANTS[run["variant"]]
    bdir = os.path.join(BUILD, run["variant"])
    inc = os.path.join(BUILD, "inc"); os.makedirs(inc, exist_ok=True)
    ver = "#define AMPGEN_MAJOR_VERSION 2\n#define AMPGEN_MINOR_VERSION 5\n"
    vp = os.path.join(inc, "AmpGenVersion.h")
    if not os.path.exists(vp) or open(vp).read() != ver: open(vp, "w").write(ver)
    incs = ["-I" + REPO, "-I" + inc, "-I" + HERE + "/vf", "-I" + HERE + "/vf/rootstub"]
    flags = COMMON + v["f"] + incs + run.get("flags", [])
    def go(kind):
        libsrc = sources(kind, run.get("extra", ()))
        # longest first
        jobs = [(HERE + "/harness/" + h, os.path.join(bdir, "h", h + ".o"), flags + run.get("hflags", [])) for h in run["harness"]]
        jobs += [(HERE + "/vf/vf.cpp", os.path.join(bdir, "h", "vf.o"), flags)]
        if True:
            jobs += [(f, os.path.join(bdir, "h", os.path.basename(f) + ".o"), flags) for f in sorted(glob.glob(HERE + "/vf/rootstub/*.cpp"))]
        jobs += [(s, os.path.join(bdir, os.path.relpath(s, REPO) + ".o"), flags) for s in sorted(libsrc, key=lambda s: -os.path.getsize(s))]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(lambda j: compile_one(*j), jobs))
        bad = [r for r in res if r[1]]
        if bad: raise CheckError("compilation failed: %s\n%s" % (bad[0][0], "\n".join(l[:300] for l in bad[0][2].splitlines() if "error" in l)[:4000]))
        exe = os.path.join(bdir, pid + "_" + os.path.splitext(run["harness"][0])[0])
        cmd = ["g++"] + v["l"] + ["-rdynamic", "-o", exe] + [j[1] for j in jobs] + run.get("ldflags", []) + ["-lgsl", "-lgslcblas", "-lmvec", "-lm", "-ldl", "-lpthread"]
        if kind == "core": cmd += ["-Wl,--unresolved-symbols=ignore-all", "-Wl,-z,lazy"]   # as the shipped no-ROOT build
        if os.path.exists("/usr/bin/ld.lld"): cmd.insert(1, "-fuse-ld=lld")
        p = subprocess.run(cmd, env=ENV, capture_output=True, text=True, errors="replace")
        return exe, p
    kind = run.get("sources", "core")
    exe, p = go(kind)
    if p.returncode and isinstance(kind, (list, tuple)):   # a refactoring moved something: take everything
        print("note: narrow source list does not link, using all core sources:", re.findall(r"undefined symbol: (.*)", p.stderr)[:6])
        exe, p = go("core")
    if p.returncode: raise CheckError("link failed:\n" + p.stderr[:6000])
    return exe

def load_known():
    f = os.path.join(HERE, "known_findings.json")
    return json.load(open(f)) if os.path.exists(f) else {"known": [], "fixed": []}

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = SPECS[pid]; t0 = time.time()
    runs = [r for r in spec["runs"] if tier == "thorough" or not r.get("thorough_only")]
    known = {(k["property"], k["key"]): k for k in load_known()["known"]}
    outroot = os.path.join(HERE, "evidence", "run", pid); shutil.rmtree(outroot, ignore_errors=True)
    secs, viol, bt = [], [], 0
    for i, run in enumerate(runs):
        tb = time.time()
        exe = build(pid, run); bt += time.time() - tb
        out = os.path.join(outroot, str(i)); os.makedirs(out)
        env = dict(ENV, VERIF_SEED=str(seed), VF_TIER=tier, VF_DATA=HERE + "/data", TMPDIR=out, OMP_NUM_THREADS=str(run.get("omp", 2)), **run.get("env", {}))
        p = subprocess.run([exe, out, str(run.get("jobs", JOBS))] + ([os.environ["VF_ONLY"]] if os.environ.get("VF_ONLY") else []), env=env, cwd=out, capture_output=True, text=True, errors="replace", timeout=3*3600)
        if p.returncode: raise CheckError("harness driver failed rc=%d\n%s" % (p.returncode, p.stderr[-3000:]))
        found = sorted(glob.glob(out + "/*.json"))
        if not found: raise CheckError("harness produced nothing\n" + p.stderr[-3000:])
        for f in found:
            s = json.load(open(f)); s["variant"] = run["variant"]; s["log"] = f[:-5] + ".log"; secs.append(s)
            for v in s["violations"]: viol.append(dict(v, section=s["section"], variant=run["variant"], seed=seed, tier=tier, log=s["log"]))
        if not os.environ.get("VF_KEEP"): shutil.rmtree(os.path.join(out, "scratch"), ignore_errors=True)
    new = [v for v in viol if (pid, v["key"]) not in known]
    kn = {v["key"]: v for v in viol if (pid, v["key"]) in known}
    counters = {}
    for s in secs:
        for k, n in s["counters"].items(): counters[s["section"] + "." + k] = counters.get(s["section"] + "." + k, 0) + n
    incon = [k for k in counters if "INCONCLUSIVE:" in k]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
          "coverage": {"evaluations": sum(s["evaluations"] for s in secs), "distinct_nontrivial": sum(s["distinct"] for s in secs),
                       "rule": spec["rule"], "samples": [s["section"] + ": " + x for s in secs for x in s["samples"]][:30],
                       "sections": [{k: s[k] for k in ("section", "variant", "evaluations", "distinct", "wall")} for s in secs],
                       "observed": counters, "builds": sorted({r["variant"] for r in runs})},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    ev["coverage"]["build_s"] = round(bt, 2)
    ev["coverage"]["known_findings_observed"] = sorted(kn)
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (HERE, pid), "w"), indent=1)
    for k in sorted(kn): print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, known[(pid, k)]["what"]))
    if new:
        rep = "%s/evidence/replay/%s.json" % (HERE, pid); os.makedirs(os.path.dirname(rep), exist_ok=True)
        json.dump({"property": pid, "cmd": "VERIF_SEED=%d python3 check.py %s %s" % (seed, pid, tier), "violations": new}, open(rep, "w"), indent=1)
        for v in new[:int(os.environ.get("VF_MAX","8"))]: print("  [%s/%s] %s (x%d): %s" % (v["variant"], v["section"], v["key"], v["n"], v["detail"][:int(os.environ.get("VF_DETAIL","700"))]))
        print("VIOLATION property=%s replay=%s" % (pid, rep)); return 1
    if incon: print("INCONCLUSIVE: too little observed: " + ", ".join(incon)); return 3
    if ev["coverage"]["evaluations"] < 1: print("INCONCLUSIVE: nothing observed"); return 3
    print("HELD property=%s evaluations=%d distinct=%d build=%.1fs wall=%.1fs" % (pid, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], bt, time.time() - t0))
    return 0

if __name__ == "__main__":
    try: sys.exit(main())
    except CheckError as e: print("CHECK ERROR: %s" % e); sys.exit(2)
    except KeyError as e: print("CHECK ERROR: unknown property %s" % e); sys.exit(2)
