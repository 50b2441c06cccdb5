#!/usr/bin/env python3
"""Runs the solver-based check of one property (or several) against /repo's current working tree.

usage: check.py PROPERTY [--tier quick|thorough] [--entry NAME] [-j N] [--keep] [-v]
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
ENG = os.path.join(HERE, "engine")
RT = os.path.join(ENG, "rt")
HAR = os.path.join(HERE, "harness")
sys.path.insert(0, HAR)
CACHE = os.environ.get("SX_CACHE", os.path.join(HERE, "_build"))
CLANG, OPT, LINK = "clang++-18", "opt-18", "llvm-link-18"
for n in ("CLANG", "OPT", "LINK"):
    if not shutil.which(globals()[n]):
        globals()[n] = os.path.join("/usr/lib/llvm-18/bin", globals()[n].replace("-18", ""))
INC = ["include", "include/math", "include/blas", "include/math/statistics", "include/math/statistics/inference", "include/math/statistics/inference/models"]
FLAGS = ["-std=c++17", "-DUSE_BOOST", "-w"] + ["-I" + os.path.join(REPO, i) for i in INC] + ["-I" + RT, "-include", os.path.join(RT, "shim.h")]
IRFLAGS = ["-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize", "-gline-tables-only", "-fno-discard-value-names", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-U_FORTIFY_SOURCE", "-fno-strict-aliasing", "-fmath-errno", "-fexceptions"]
NATFLAGS = ["-O1", "-g1", "-c", "-DSX_NATIVE", "-fsanitize=address", "-fno-omit-frame-pointer", "-ffp-contract=off"]
LIB = "/usr/lib/x86_64-linux-gnu"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), RT):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".cpp", ".inc")) and (root != RT or f in ("shim.h", "sx.h")):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


def har_hash():
    h = hashlib.sha256()
    for f in sorted(os.listdir(HAR)):
        if f.endswith(".h"):
            h.update(open(os.path.join(HAR, f), "rb").read())
    return h.hexdigest()


def with_included(src, seen=None):
    """a source file together with the sources and local headers it includes (headers under include/ are in tree_hash)"""
    seen = seen if seen is not None else set()
    src = os.path.realpath(src)
    if src in seen or not os.path.isfile(src):
        return b""
    seen.add(src)
    data = open(src, "rb").read()
    for inc in re.findall(rb'^[ \t]*#[ \t]*include[ \t]*"([^"]+)"', data, re.M):
        data += with_included(os.path.join(os.path.dirname(src), inc.decode("utf-8", "replace")), seen)
    return data


class Builder:
    def __init__(self):
        os.makedirs(CACHE, exist_ok=True)
        self.th = tree_hash() + har_hash()

    def obj(self, src, native, pre=None):
        flags = (["-include", os.path.join(HAR, pre)] if pre else []) + FLAGS + (NATFLAGS if native else IRFLAGS)
        if src.endswith(".c"):
            flags = [f for f in flags if f not in ("-std=c++17", "-include", os.path.join(RT, "shim.h"))] + ["-fno-builtin", "-x", "c"]
        key = hashlib.sha256((self.th + repr(flags) + src).encode() + with_included(src)).hexdigest()[:24]
        out = os.path.join(CACHE, os.path.basename(src) + "." + key + (".o" if native else ".bc"))
        if not os.path.exists(out):
            tmp = out + ".%d.%d.tmp" % (os.getpid(), int(time.time() * 1e6) % 10**9)
            r = sh([CLANG] + flags + [src, "-o", tmp])
            if r.returncode:
                raise RuntimeError("compilation of %s failed:\n%s" % (src, r.stdout[-4000:]))
            os.replace(tmp, out)
        return out

    def srcs(self, group):
        return [os.path.join(REPO, "src", s) for s in group["sources"]]

    def module(self, group, work):
        files = [os.path.join(HAR, group["harness"])] + self.srcs(group) + [os.path.join(RT, "rt.cpp"), os.path.join(RT, "rtc.c"), os.path.join(RT, "blas.cpp")]
        with cf.ThreadPoolExecutor(8) as ex:
            bcs = list(ex.map(lambda s: self.obj(s, False, None if s.startswith(RT) else group.get("pre")), files))
        base = os.path.join(work, group["harness"].replace(".cpp", "") + "_" + hashlib.sha256(repr(sorted(group["sources"])).encode()).hexdigest()[:6])
        linked, final = base + ".linked.bc", base + ".bc"
        r = sh([LINK, "-o", linked] + bcs)
        if r.returncode:
            raise RuntimeError("llvm-link failed:\n" + r.stdout[-4000:])
        syms = ",".join("h_" + e for e in group["entries"]) + ",sx_rt_bad_alloc,sx_errno"
        r = sh([OPT, "-internalize-public-api-list=" + syms, "-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg,sroa),globaldce", linked, "-o", final])
        if r.returncode:
            raise RuntimeError("opt failed:\n" + r.stdout[-4000:])
        os.unlink(linked)
        return final

    def native(self, group, work):
        files = [os.path.join(HAR, group["harness"])] + self.srcs(group) + [os.path.join(RT, "sx_native.cpp")]
        with cf.ThreadPoolExecutor(8) as ex:
            os_ = list(ex.map(lambda s: self.obj(s, True, None if s.startswith(RT) else group.get("pre")), files))
        exe = os.path.join(work, "native_" + group["harness"].replace(".cpp", "") + "_" + hashlib.sha256(repr(sorted(group["sources"])).encode()).hexdigest()[:6])
        if os.path.exists(exe):
            return exe
        r = sh([CLANG, "-fsanitize=address", "-rdynamic", "-o", exe] + os_ + [LIB + "/liblapack.so", LIB + "/libblas.so", "-ldl", "-lpthread", "-Wl,--unresolved-symbols=ignore-all"])
        if r.returncode:
            raise RuntimeError("native link failed:\n" + r.stdout[-3000:])
        return exe


def replay(exe, entry, inputs, work, tag):
    f = os.path.join(work, "replay_%s_%s.txt" % (entry, tag))
    with open(f, "w") as o:
        for n, k, v in inputs:
            o.write("%s %s %s\n" % (n, k, v))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=44:allocator_may_return_null=1:detect_stack_use_after_return=1")
    try:
        p = subprocess.run([exe, "h_" + entry, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=30, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        return f, "hang", "no termination within 30 s"
    out = p.stdout
    if p.returncode == 42:
        m = re.search(r"SX-VIOLATION (.*)", out)
        return f, "assert", m.group(1) if m else "?"
    if p.returncode == 43:
        return f, "terminate", "uncaught exception / std::terminate"
    if p.returncode == 44 or "AddressSanitizer" in out:
        m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", out)
        return f, "asan", m.group(1)[:200] if m else "address sanitizer error"
    if p.returncode < 0:
        return f, "signal", "killed by signal %d" % -p.returncode
    if p.returncode in (77, 78, 79):
        return f, "diverged", out.strip()[-200:]
    return f, "none", out.strip()[-200:]


def run_entry(symx, mod, entry, tmo, opts, work, seed):
    out = os.path.join(work, entry + ".json")
    cmd = [symx, mod, "--entry", "h_" + entry, "--out", out, "--timeout", str(tmo)] + opts
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=tmo * 1.2 + 60)
        err = p.stderr
        rc = p.returncode
    except subprocess.TimeoutExpired:
        err, rc = "hard timeout", -99
    if os.path.exists(out):
        d = json.load(open(out))
    else:
        d = {"entry": entry, "error": "engine rc=%s %s" % (rc, err[-500:])}
    d["rc"] = rc; d["time"] = time.time() - t0; d["stderr"] = err[-2000:]
    return d


def demangle(names):
    try:
        r = subprocess.run(["c++filt", "-p"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        return r.stdout.split("\n")[: len(names)]
    except Exception:
        return names


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--entry"); ap.add_argument("-j", type=int, default=8); ap.add_argument("--keep", action="store_true"); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    from specs import SPECS
    spec = SPECS[a.property]
    r = sh([os.path.join(ENG, "build.sh")])
    if r.returncode:
        print(r.stdout[-3000:]); print("engine build failed"); return 2
    symx = os.path.join(ENG, "bin", "symx")
    work = tempfile.mkdtemp(prefix="sx_%s_" % a.property)
    known = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rc = 0
    try:
        b = Builder()
        jobs = []
        groups = spec["groups"]
        for g in groups:
            mod = b.module(g, work)
            for e, eo in g["entries"].items():
                if a.entry and e != a.entry:
                    continue
                eo = eo or {}
                if eo.get("tier") == "thorough" and a.tier != "thorough":
                    continue
                tmo = eo.get(a.tier, 240 if a.tier == "quick" else 1500)
                jobs.append((g, mod, e, tmo, eo.get("opts", [])))
        jobs.sort(key=lambda j: -j[3])
        results = []
        with cf.ThreadPoolExecutor(a.j) as ex:
            fut = {ex.submit(run_entry, symx, m, e, t, o, work, seed): (g, e) for g, m, e, t, o in jobs}
            for f in cf.as_completed(fut):
                g, e = fut[f]
                d = f.result(); results.append((g, e, d))
                if a.v:
                    print("  %-34s paths=%-6s q=%-6s unk=%-3s asserts=%s/%s wall=%.1f viol=%d inc=%s %s" % (e, d.get("paths"), d.get("queries"), d.get("unknown"), d.get("asserts_symbolic"), d.get("asserts"), d["time"], len(d.get("violations", [])), d.get("inconclusive"), d.get("error", "")), flush=True)
        viol_out, unrepro, knownhit, inconcl = [], [], [], []
        for g, e, d in results:
            if d.get("error"):
                inconcl.append("%s: %s" % (e, d["error"]))
            for k, n in d.get("inconclusive", {}).items():
                inconcl.append("%s: %s (x%d)" % (e, k, n))
            if not d.get("error") and not d.get("asserts"):
                inconcl.append("%s: no assertion was reached" % e)
            seen = set()
            for i, v in enumerate(d.get("violations", [])):
                key = (v["kind"], v["msg"], v["loc"])
                if key in seen and (e, key) in [(x[0], x[3]) for x in viol_out]:
                    continue
                exe = b.native(g, work)
                f, how, det = replay(exe, e, v["inputs"], work, str(i))
                if how in ("none", "diverged"):
                    unrepro.append("%s: %s '%s' at %s did not reproduce natively (%s %s)" % (e, v["kind"], v["msg"], v["loc"], how, det))
                    if a.v: print("   not reproduced:", e, key, how, det, v["inputs"])
                    continue
                seen.add(key)
                kf = [k for k in known if k["property"] == a.property and k["entry"] == e and k["msg"] in (v["msg"] if v["kind"] == "assert" else v["kind"] + ": " + v["msg"] + " @ " + v["loc"])]
                if kf:
                    knownhit.append(kf[0]); continue
                viol_out.append((e, f, v, key, how, det))
        names = set()
        for g, e, d in results:
            names.update(d.get("functions", []))
        dem = [n for n in demangle(sorted(names)) if "ldt" in n or not (n.startswith("std::") or n.startswith("__") or n.startswith("void std::") or "__gnu_cxx" in n or n.startswith("boost") or n.startswith("h_"))]
        asserts = {}
        for g, e, d in results:
            for m, n in d.get("assert_sites", {}).items():
                asserts[e + ": " + m] = n
        tot = lambda k: sum(int(d.get(k, 0) or 0) for _, _, d in results)
        samples = []
        for g, e, d in results[:12]:
            samples.append({"entry": e, "paths": d.get("paths"), "queries": d.get("queries"), "solver_s": round(d.get("solver_s", 0) or 0, 3), "wall_s": round(d["time"], 2)})
        evidence = {
            "property": a.property, "tier": a.tier, "seed": seed, "level": spec.get("level", "other"),
            "coverage": {
                "explanation": "Bounded symbolic execution of the LLVM IR of /repo's current sources; every assertion is decided by Z3 over all values within the stated bounds on every explored path. Bounds: " + spec["bounds"] + " Outside: " + spec.get("outside", "everything beyond those bounds."),
                "bounds": spec["bounds"], "outside": spec.get("outside", ""),
                "entries": [{"entry": e, "paths": d.get("paths"), "forks": d.get("forks"), "instructions": d.get("instructions"), "queries": d.get("queries"), "sat": d.get("sat"), "unsat": d.get("unsat"), "unknown": d.get("unknown"), "assertions_checked": d.get("asserts"), "assertions_symbolic": d.get("asserts_symbolic"), "proved_by_normal_form": d.get("normal_form"), "solver_s": round(d.get("solver_s", 0) or 0, 3), "wall_s": round(d["time"], 2), "complete": not d.get("inconclusive") and not d.get("error")} for g, e, d in sorted(results, key=lambda x: x[1])],
                "paths": tot("paths"), "queries": tot("queries"), "queries_unsat": tot("unsat"), "queries_sat": tot("sat"), "queries_unknown": tot("unknown"), "instructions": tot("instructions"),
                "assertions_checked": tot("asserts"), "solver_s": round(sum(d.get("solver_s", 0) or 0 for _, _, d in results), 2),
                "assert_sites": asserts, "functions_encoded": dem[:400], "functions_encoded_count": len(dem),
                "reached": {k: v for _, _, d in results for k, v in d.get("reached", {}).items()},
                "inconclusive": inconcl, "candidates_not_reproduced": unrepro,
                "samples": samples,
                "violation_details": [{"entry": e, "kind": v["kind"], "msg": v["msg"], "loc": v["loc"], "replay_result": how + " " + det, "inputs": v["inputs"]} for e, f, v, key, how, det in viol_out],
            },
            "assumptions": spec.get("assumptions", []),
"violations": len(viol_out),
            "wall_s": round(time.time() - t0, 2),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        if not a.entry:
            with open(os.path.join(HERE, "evidence", a.property + ".json"), "w") as o:
                json.dump(evidence, o, indent=1)
        print("%s: %d entries, %d paths, %d queries (%d unsat, %d sat, %d unknown), %d assertions, solver %.1fs, wall %.1fs" % (a.property, len(results), tot("paths"), tot("queries"), tot("unsat"), tot("sat"), tot("unknown"), tot("asserts"), evidence["coverage"]["solver_s"], evidence["wall_s"]))
        for k in sorted({k["id"]: k for k in knownhit}.items()):
            print("KNOWN-FINDING: property=%s %s" % (a.property, k[1]["what"]))
        for m in inconcl[:20]:
            print("INCONCLUSIVE " + m)
        for m in unrepro[:10]:
            print("UNREPRODUCED " + m)
        if viol_out:
            rdir = os.path.join(HERE, "_replay"); os.makedirs(rdir, exist_ok=True)
            done = set()
            for e, f, v, key, how, det in viol_out:
                if (e, key) in done: continue
                done.add((e, key))
                dst = os.path.join(rdir, a.property + "_" + os.path.basename(f)); shutil.copy(f, dst)
                print("  %s: %s '%s' at %s; real code: %s %s; inputs %s" % (e, v["kind"], v["msg"], v["loc"], how, det, " ".join("%s=%s" % (n, x) for n, k, x in v["inputs"])[:600]))
                print("VIOLATION property=%s replay=%s" % (a.property, dst))
            rc = 1
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("work dir", work)
    return rc


if __name__ == "__main__":
    sys.exit(main())
