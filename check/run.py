#!/usr/bin/env python3
"""Runs the solver-based checks of one property:  run.py PROPERTY [--tier quick|thorough] [--job NAME] [--keep] [-v]

For every job of the property: compile /repo's current sources and the job's harness to LLVM bitcode, execute the
harness symbolically (build/rsx), replay every counterexample and a sample of the completed paths natively (clang,
AddressSanitizer) against the same sources, and compare.  Exit 0: held; 1: VIOLATION; 2: the check itself failed."""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from jobs import JOBS, ASSUME, LEVEL_NOTE
REPO = os.environ.get("RSX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build"); RSX = os.path.join(BUILD, "rsx")
CONFIGS = {   # name: (defines, with x86 assembler files, overlay without digest unrolling)
  "port": ([], False, False), "asm": (["-DRACRYPT_USE_ASM"], True, False), "w32": (["-DBN_WORD_BYTE=4"], False, False),
  "noroll": ([], False, True), "aesmin": (["-DRACRYPT_AES_MIN_TABLE"], False, False), "primemin": (["-DRACRYPT_PRIME_MIN_TABLE"], False, False),
  "verify": (["-DRACRYPT_RSA_VERIFY_KEY"], False, False),
}
class CheckError(Exception): pass
def sh(cmd, timeout=600, env=None, cwd=None):
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd, errors="replace")
    except subprocess.TimeoutExpired: return 124, "", "timeout"
    return p.returncode, p.stdout, p.stderr
def must(cmd, **k):
    rc, o, e = sh(cmd, **k)
    if rc: raise CheckError("command failed (%d): %s\n%s" % (rc, " ".join(cmd), (o + e)[-4000:]))
    return o
def sources(asm):
    t = open(os.path.join(REPO, "CMakeLists.txt"), encoding="utf-8", errors="replace").read()
    fs = sorted(set(re.findall(r"src/(?:com|pk|digest|cipher)/\w+\.c", t)))
    return [f for f in fs if "arm64" not in f and (asm or not f.endswith("_x86.c"))]
class Ctx:
    def __init__(self, work): self.work = work; self.lock = threading.Lock(); self.done = {}; self.locks = {}
    def once(self, key, fn):
        with self.lock: l = self.locks.setdefault(key, threading.Lock())
        with l:
            if key not in self.done:
                try: self.done[key] = (True, fn())
                except Exception as ex: self.done[key] = (False, ex)
            ok, v = self.done[key]
            if not ok: raise v
            return v
    def incs(self, cfg, extra=()):
        d = []
        if CONFIGS[cfg][2]:
            def mk():
                o = os.path.join(self.work, "overlay-" + cfg); os.makedirs(o)
                s = open(os.path.join(REPO, "src/include/racrypt.h"), encoding="utf-8", errors="replace").read()
                s2 = re.sub(r"(?m)^\s*#\s*define\s+RACRYPT_DIGEST_UNROLL\b.*$", "", s)
                open(os.path.join(o, "racrypt.h"), "w").write(s2); return o
            d.append("-I" + self.once("overlay" + cfg, mk))
        for i in ("include", "cipher", "pk"): d.append("-I" + os.path.join(REPO, "src", i))
        return d + ["-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(VERIF, "harness"), "-w"] + CONFIGS[cfg][0]
    def bitcode(self, cfg):
        def mk():
            d = os.path.join(self.work, "bc-" + cfg); os.makedirs(d)
            def one(f):
                o = os.path.join(d, f.replace("/", "_") + ".bc")
                must(["clang", "-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", "-g1"] + self.incs(cfg) + [os.path.join(REPO, f), "-o", o]); return o
            with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, sources(CONFIGS[cfg][1])))
            out = os.path.join(self.work, "lib-%s.bc" % cfg); must(["llvm-link-18"] + objs + ["-o", out]); return out
        return self.once("bc" + cfg, mk)
    def native(self, cfg, init):
        def mk():
            d = os.path.join(self.work, "nat-%s-%s" % (cfg, init)); os.makedirs(d)
            def one(f):
                o = os.path.join(d, f.replace("/", "_") + ".o")
                must(["clang", "-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=" + init, "-c"] + self.incs(cfg) + [os.path.join(REPO, f), "-o", o]); return o
            with cf.ThreadPoolExecutor(8) as ex: return list(ex.map(one, sources(CONFIGS[cfg][1])))
        return self.once("nat" + cfg + init, mk)
class Job:
    def __init__(self, prop, name, harness, cfg="port", defs=(), tier="quick", time=300, query=60000, eq=20000, steps=400000000, samples=12, args=(), known=None, bounds="", overrides=(), mem=12):
        self.__dict__.update(locals())
def nativeBuild(ctx, job, init):
    def mk():
        objs = ctx.native(job.cfg, init); exe = os.path.join(ctx.work, "exe-%s-%s" % (job.name, init))
        wrap = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=free,--wrap=realloc"]
        base = ["clang", "-O1", "-g", "-fsanitize=address", "-ftrivial-auto-var-init=" + init] + ctx.incs(job.cfg) + ["-D" + d for d in job.defs]
        # a harness may replace a library function: rsx_override_NAME is linked in place of NAME
        extra = []
        ho = exe + ".o"; must(base + ["-c", os.path.join(VERIF, "harness", job.harness), "-o", ho])
        syms = must(["nm", ho]); names = re.findall(r" T rsx_override_(\w+)", syms)
        reals = re.findall(r" U (__real_\w+)", syms)
        if names or reals:
            new = []
            for o in objs:
                defined = set(re.findall(r" [TtW] (\w+)", must(["nm", o])))
                m = [n for n in names if n in defined]
                if m:
                    o2 = exe + "-" + os.path.basename(o); cmd = ["objcopy"]
                    for n in m: cmd += ["--redefine-sym", "%s=%s" % (n, "rsx_override_" + n)] if False else ["--weaken-symbol=" + n]
                    must(cmd + [o, o2]); new.append(o2)
                else: new.append(o)
            objs = new
            for n in names: extra.append("-Wl,--wrap=" + n)
            # --wrap=f sends calls of f to __wrap_f; alias it to the override
            stub = exe + "-wrap.c"; open(stub, "w").write("".join('__asm__(".globl __wrap_%s\\n.set __wrap_%s, rsx_override_%s\\n");\n' % (n, n, n) if False else "" for n in names))
            for n in names: extra.append("-Wl,--defsym=__wrap_%s=rsx_override_%s" % (n, n))
        must(base + [ho, os.path.join(VERIF, "lib", "rsx_native.c")] + objs + wrap + extra + ["-lm", "-o", exe])
        return exe
    return ctx.once(("exe", job.name, init), mk)
ENV = {**os.environ, "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1"}
def replayOnce(exe, path, fill, timeout=60):
    rc, o, e = sh([exe, path], timeout=timeout, env={**ENV, "RSX_FILL": str(fill)})
    obs = [l.split(" ")[1:] for l in o.splitlines() if l.startswith("OBS ")]
    if rc == 0 and "RSX-OK" in o: return "ok", "", obs
    if rc == 42: return ("input" if "RSX-VIOLATION input" in o else "violation"), o[o.rfind("RSX-VIOLATION"):].strip()[:300], obs
    if rc == 43: return "assume", "", obs
    if rc == 124: return "violation", "does not terminate within %d s" % timeout, obs
    m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)|Assertion `[^\n]*", e)
    if rc in (77, -6, -11, -8, -4, 134, 136, 139): return "violation", "exit %d: %s" % (rc, m.group(0)[:300] if m else e.strip()[-200:]), obs
    return "error", "exit %d %s" % (rc, e[-300:]), obs
def writeInput(path, inputs):
    with open(path, "w") as f:
        for n, h in inputs: f.write("%s %s\n" % (re.sub(r"\s", "_", n), h))
def runEngine(ctx, job, defs, tag):
    hb = os.path.join(ctx.work, "h-%s.bc" % tag); lb = os.path.join(ctx.work, "l-%s.bc" % tag); fb = os.path.join(ctx.work, "f-%s.bc" % tag); out = os.path.join(ctx.work, "o-%s.json" % tag)
    lib = ctx.bitcode(job.cfg)
    must(["clang", "-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", "-g1"] + ctx.incs(job.cfg) + ["-D" + d for d in defs] + [os.path.join(VERIF, "harness", job.harness), "-o", hb])
    must(["llvm-link-18", lib, hb, "-o", lb])
    api = subprocess.run(["llvm-nm-18", "--defined-only", hb], stdout=subprocess.PIPE, text=True).stdout
    keep = ["harness"] + re.findall(r" T (rsx_\w+)", api)
    must(["opt-18", "-passes=internalize,globaldce,function(sroa,simplifycfg,early-cse)", "-internalize-public-api-list=" + ",".join(keep), lb, "-o", fb])
    cmd = [RSX, fb, "--out", out, "--time", str(job.time), "--query-timeout", str(job.query), "--eq-timeout", str(job.eq), "--steps", str(job.steps), "--samples", str(job.samples), "--seed", os.environ.get("VERIF_SEED", "1")] + list(job.args)
    rc, o, e = sh(["bash", "-c", 'ulimit -v %d; exec "$@"' % (job.mem * 1024 * 1024), "x"] + cmd, timeout=job.time + 120)
    for f in (hb, lb, fb):
        if os.path.exists(f): os.unlink(f)
    if rc or not os.path.exists(out): raise CheckError("%s: engine exit %d: %s" % (job.name, rc, (o + e)[-1500:]))
    r = json.load(open(out)); os.unlink(out); r["stderr"] = e[-500:]
    return r
DEADLINE = [1e18]
def runJob(ctx, job):
    left = DEADLINE[0] - time.time()
    if left < 20: return {"job": job, "status": "ok", "notes": [], "replays": 0, "viol": [], "unconfirmed": [], "known": None, "wall": 0, "skipped": True}
    job.time = int(min(job.time, left))
    t0 = time.time(); res = {"job": job, "status": "ok", "notes": [], "replays": 0, "viol": [], "unconfirmed": [], "known": None}
    try:
        r = runEngine(ctx, job, job.defs, job.name)
        res["r"] = r
        if r["error"]: raise CheckError("%s: engine: %s" % (job.name, r["error"]))
        # path samples
        if r["samples"]:
            exe = nativeBuild(ctx, job, "zero")
            for i, s in enumerate(r["samples"]):
                p = os.path.join(ctx.work, "in-%s-%d" % (job.name, i)); writeInput(p, s["inputs"])
                k, m, obs = replayOnce(exe, p, 0)
                if k == "ok" and obs == [list(x) for x in s["obs"]]: res["replays"] += 1
                else: res["unconfirmed"].append("sampled path %d: native run gives %s %s (observations %s)" % (i, k, m, "differ" if obs != [list(x) for x in s["obs"]] else "agree")); 
                os.unlink(p)
        for i, v in enumerate(r["violations"]):
            p = os.path.join(ctx.work, "cex-%s-%d" % (job.name, i)); writeInput(p, v["inputs"]); hit = None
            for init, fill in (("zero", 0), ("pattern", 0xff), ("zero", 0xa5), ("pattern", 1)):
                k, m, obs = replayOnce(nativeBuild(ctx, job, init), p, fill)
                if k == "violation": hit = (init, fill, m); break
            if hit: res["viol"].append({"v": v, "path": p, "init": hit[0], "fill": hit[1], "native": hit[2]})
            else: res["unconfirmed"].append("%s %s at %s: counterexample does not reproduce natively (%s %s)" % (v["kind"], v["msg"], v["where"], k, m))
        if res["viol"] and job.known:   # is the deviation exactly the recorded one?
            r2 = runEngine(ctx, job, list(job.defs) + job.known["defs"], job.name + "-known")
            if not r2["error"] and not r2["violations"] and not r2["undecided"] and not r2["timeout"]:
                res["known"] = job.known["id"]; res["knownViol"] = res["viol"]; res["viol"] = []; res["r2"] = r2
    except CheckError as ex: res["status"] = "error"; res["notes"].append(str(ex))
    except Exception as ex: res["status"] = "error"; res["notes"].append(repr(ex))
    res["wall"] = time.time() - t0
    return res
def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--job"); ap.add_argument("--keep", action="store_true"); ap.add_argument("-v", action="store_true"); ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args(); t0 = time.time(); prop = a.prop
    if not os.path.exists(RSX) or any(os.path.getmtime(os.path.join(VERIF, "rsx", f)) > os.path.getmtime(RSX) for f in os.listdir(os.path.join(VERIF, "rsx"))):
        rc, o, e = sh(["make", "-s", "-C", os.path.join(VERIF, "rsx"), "-j8"], timeout=900)
        if rc: print(o + e); return 2
    jobs = [Job(prop, **j) for j in JOBS[prop]]
    jobs = [j for j in jobs if (j.tier == "quick" and a.tier == "quick") or (a.tier == "thorough" and j.tier in ("quick", "thorough"))]
    # a thorough job may stand for quick ones
    if a.job: jobs = [j for j in jobs if re.fullmatch(a.job, j.name)]
    known = json.load(open(os.path.join(VERIF, "known-findings.json")))["known"]
    DEADLINE[0] = t0 + (720 if a.tier == "quick" else 6 * 3600)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True); os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=BUILD); ctx = Ctx(work); results = []
    try:
        jobs.sort(key=lambda j: -j.time)
        with cf.ThreadPoolExecutor(a.j) as ex:
            for r in ex.map(lambda j: runJob(ctx, j), jobs):
                results.append(r); j = r["job"]; q = r.get("r", {})
                print("%-34s %-6s %6.1fs paths %s instrs %s queries %s (%.1fs) replays %d%s" % (j.name, r["status"], r["wall"], q.get("paths"), q.get("instrs"), q.get("queries"), q.get("solver_time", 0), r["replays"], " TIMEOUT" if q.get("timeout") else ""))
                if r.get("skipped"): print("  UNDECIDED the time of this run was used up")
                for n in r["notes"] + r["unconfirmed"]: print("  ! " + n)
                for u in q.get("undecided", []): print("  UNDECIDED %s" % u)
                sys.stdout.flush()
        rc = report(prop, a.tier, ctx, results, known, t0)
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)
    return rc
def report(prop, tier, ctx, results, known, t0):
    viol = 0; err = False; rdir = os.path.join(VERIF, "evidence", "replay"); seenKnown = set()
    for r in results:
        if r["status"] != "ok" or r["unconfirmed"]: err = True
        if r["known"]:
            k = [x for x in known if x["id"] == r["known"]]
            if not k: viol += emit(prop, r, r["knownViol"], rdir)
            elif r["known"] not in seenKnown: seenKnown.add(r["known"]); print("KNOWN-FINDING: property=%s %s" % (prop, k[0]["what"]))
        for v in r["viol"]: pass
        fresh = []
        for v in r["viol"]:
            m = [k for k in known if k["property"] == prop and matchKnown(k, r["job"], v)]
            if m:
                if m[0]["id"] not in seenKnown: seenKnown.add(m[0]["id"]); print("KNOWN-FINDING: property=%s %s" % (prop, m[0]["what"]))
            else: fresh.append(v)
        if fresh: viol += emit(prop, r, fresh, rdir)
    writeEvidence(prop, tier, results, viol, t0, sorted(seenKnown))
    if viol: return 1
    return 2 if err else 0
def matchKnown(k, job, v):
    if "match" not in k: return False
    m = k["match"]
    return re.fullmatch(m.get("job", ".*"), job.name) and re.search(m["msg"], v["v"]["msg"] + " | " + v["native"]) and all(re.fullmatch(m["inputs"][n], h) for n, h in v["v"]["inputs"] if n in m.get("inputs", {})) if isinstance(m.get("inputs", {}), dict) else False
def emit(prop, r, vs, rdir):
    os.makedirs(rdir, exist_ok=True); j = r["job"]; n = 0
    for i, v in enumerate(vs):
        p = os.path.join(rdir, "%s-%s-%d.txt" % (prop, j.name, i))
        with open(v["path"]) as f: data = f.read()
        with open(p, "w") as f: f.write(data)
        with open(p + ".info", "w") as f: json.dump({"property": prop, "harness": j.harness, "config": j.cfg, "defines": list(j.defs), "claim": v["v"]["msg"], "kind": v["v"]["kind"], "where": v["v"]["where"], "native": v["native"], "stack_init": v["init"], "heap_fill": v["fill"], "how": "check/replay.py " + p}, f, indent=1)
        print("  %s: %s at %s; native: %s" % (v["v"]["kind"], v["v"]["msg"], v["v"]["where"], v["native"]))
        print("VIOLATION property=%s replay=%s" % (prop, p)); n += 1
    return n
def writeEvidence(prop, tier, results, viol, t0, seenKnown):
    T = lambda k: sum(int(r["r"][k]) for r in results if "r" in r)
    fns = set(); jobs = []
    for r in results:
        j = r["job"]; q = r.get("r", {})
        fns |= set(q.get("functions", []))
        jobs.append({"job": j.name, "harness": j.harness, "config": j.cfg, "defines": list(j.defs), "bounds": j.bounds, "paths": q.get("paths"), "pruned_by_assumption": q.get("pruned"), "branches": q.get("branches"), "instructions": q.get("instrs"), "assertions": q.get("asserts"), "queries": q.get("queries"), "solver_s": q.get("solver_time"), "wall_s": round(r["wall"], 2), "status": r["status"], "undecided": q.get("undecided"), "timeout": bool(q.get("timeout")), "marks": q.get("marks"), "native_replays": r["replays"]})
    samples = []
    for r in results:
        for s in r.get("r", {}).get("samples", [])[:2]: samples.append({"job": r["job"].name, **s})
    cov = {"states": T("paths") + T("forks"), "transitions": T("instrs"), "traces_validated_against_impl": sum(r["replays"] for r in results), "samples": samples[:12],
      "states_meaning": "symbolic states: completed paths plus forks", "transitions_meaning": "LLVM instructions executed on symbolic states",
      "functions_encoded": sorted(f for f in fns if not f.startswith(("harness", "rsx_"))), "assertions": T("asserts"), "bytes_compared": T("eq_bytes"), "memory_accesses_checked": T("mem_checks"),
      "equalities": {"identical_terms": T("eq_struct"), "normal_form": T("eq_canon"), "after_sweeping": T("eq_sweep"), "solver": T("eq_solver")},
      "solver": {"queries": T("queries"), "unsat": T("unsat"), "sat": T("sat"), "unknown": T("unknown"), "table_lemmas": T("table_lemmas"), "local_lemmas": T("sweep_merges"), "lemma_reuse": T("sweep_reused"), "time_s": round(sum(r["r"]["solver_time"] for r in results if "r" in r), 2)},
      "undecided": sum(len(r["r"]["undecided"]) if "r" in r else 1 for r in results), "jobs": jobs, "known_findings_seen": seenKnown}
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov, "assumptions": ASSUME["all"] + ASSUME.get(prop, []), "wall_s": round(time.time() - t0, 2), "violations": viol}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
if __name__ == "__main__": sys.exit(main())
