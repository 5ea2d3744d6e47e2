#!/usr/bin/env python3
# Driver: decides one property. run.py <ID> [quick|thorough]
# Lowers the harnesses of the property together with /repo's current sources to
# LLVM bitcode, executes every unit symbolically (engine/fernsym), replays every
# counterexample and a set of sample paths natively, and writes the evidence.
import sys, os, re, json, glob, time, subprocess, shutil, concurrent.futures as cf, hashlib, threading
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FERN_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin"
B = os.path.join(V, "build")
T0 = time.time()
JOBS = 8

def sh(cmd, timeout=None, **k):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", **k)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"

def die(msg):
    print("ERROR: " + msg); sys.stdout.flush(); os._exit(2)

def build_engine():
    if not (os.path.exists(B + "/fernsym") and os.path.exists(B + "/rt.bc")):
        rc, o, e = sh(["make", "-C", V + "/engine", "-j8"])
        if rc: die("engine build failed\n" + e[-2000:])

def parse_harness(path):
    d = {"path": path, "deps": [], "bounds": [], "assume": [], "flags": [], "symflags": [], "native": [], "opt": {}}
    for line in open(path):
        m = re.match(r"//\s*(FERN|BOUND|ASSUME|FLAGS|SYMFLAGS|NATIVE|OPT):\s*(.*)", line)
        if m:
            k, t = m.groups()
            if k == "FERN": d["deps"] += t.split()
            elif k == "BOUND": d["bounds"].append(t)
            elif k == "ASSUME": d["assume"].append(t)
            elif k == "FLAGS": d["flags"] += t.split()
            elif k == "SYMFLAGS": d["symflags"] += t.replace("$V", V).split()   # only when lowering to bitcode (stand-ins)
            elif k == "NATIVE": d["native"] += t.split()                         # sources only needed by the native build
            elif k == "OPT":
                for kv in t.split():
                    a, b = kv.split("="); d["opt"][a] = b
    return d

BCF = ["-std=c++17", "-O1", "-fwrapv", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize", "-include", V + "/engine/fs_prefix.h",
       "-gline-tables-only", "-emit-llvm", "-c", "-w"]
def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = sys.argv[3:]  # optional unit filter
    build_engine()
    W = os.path.join(B, "run_" + prop); shutil.rmtree(W, ignore_errors=True); os.makedirs(W + "/gen/fern")
    EV = os.path.join(V, "evidence"); os.makedirs(EV, exist_ok=True)
    RP = os.path.join(EV, "replay_" + prop); shutil.rmtree(RP, ignore_errors=True)
    # generated configuration header
    t = open(REPO + "/source/fern/configure.h.in").read()
    t = re.sub(r"\$\{\$\{PROJECT_NAME\}_(MAJOR|MINOR|PATCH)_VERSION\}", "0", t); t = re.sub(r"\$\{[^\n\"]*?\}", "x", t)
    open(W + "/gen/fern/configure.h", "w").write(t)
    INC = ["-I" + REPO + "/source", "-I" + W + "/gen", "-I" + V + "/engine", "-I" + V + "/harness"]
    hs = [parse_harness(p) for p in sorted(glob.glob(V + "/harness/" + prop + "_*.cpp"))]
    if not hs: die("no harness for " + prop)
    pool = cf.ThreadPoolExecutor(JOBS); npool = cf.ThreadPoolExecutor(4)
    # ---- lower to bitcode
    deps = sorted({d for h in hs for d in h["deps"]})
    flags_of = {d: h["flags"] + h["symflags"] for h in hs for d in h["deps"]}
    def obj(d, suffix): return W + "/" + d.replace("/", "_") + suffix
    def comp(args, out):
        rc, o, e = sh(args + ["-o", out]); return rc, e
    jobs = {}
    for h in sorted(hs, key=lambda h: -os.path.getsize(h["path"])):
        n = os.path.basename(h["path"])[:-4]; h["name"] = n
        jobs[n] = pool.submit(comp, [LLVM + "/clang++"] + BCF + INC + h["flags"] + h["symflags"] + [h["path"]], W + "/" + n + ".h.bc")
    for d in deps: jobs["dep:" + d] = pool.submit(comp, [LLVM + "/clang++"] + BCF + INC + flags_of[d] + [REPO + "/source/fern/" + d + ".cc"], obj(d, ".d.bc"))
    # ---- native build (plain), for replay and sample validation; same flags as the repository's test build
    NAT = ["g++", "-std=c++17", "-O0", "-w", "-fPIC", "-ffp-contract=off"] + INC
    njobs = {}
    def native(h, san=()):
        tag = "san" if san else "nat"
        objs = []
        out = W + "/" + h["name"] + "." + tag
        cmd = NAT + list(san) + h["flags"] + [h["path"], V + "/engine/fs_native.cpp"] + [REPO + "/source/fern/" + d + ".cc" for d in h["deps"] + h["native"]] + ["-o", out, "-rdynamic", "-ldl", "-lpthread"]
        rc, o, e = sh(cmd, timeout=600)
        return (out if rc == 0 else None), e
    def link(h):
        r, e = jobs[h["name"]].result()
        if r: return "harness %s does not compile:\n%s" % (h["name"], "\n".join([l for l in e.split("\n") if "error" in l or "note: in inst" in l][:25]))
        for d in h["deps"]:
            r, e = jobs["dep:" + d].result()
            if r: return "%s.cc does not compile:\n%s" % (d, e[-1500:])
        rc, o, e = sh([LLVM + "/llvm-link", W + "/" + h["name"] + ".h.bc"] + [obj(d, ".d.bc") for d in h["deps"]] + [B + "/rt.bc", "-o", W + "/" + h["name"] + ".bc"])
        if rc: return "link: " + e[-1500:]
        return None
    units = []
    budget = 800 if tier == "quick" else 10 * 3600
    utime_default = 240 if tier == "quick" else 3600
    for h in hs:
        err = link(h)
        if err: die(err)
        rc, o, e = sh([LLVM + "/llvm-nm", "--defined-only", W + "/" + h["name"] + ".h.bc"])
        for l in o.split("\n"):
            m = re.search(r" T (t?unit_\w+)$", l)
            if not m: continue
            u = m.group(1)
            if u.startswith("tunit_") and tier == "quick" and not only: continue
            if only and not any(re.search(x, u) for x in only): continue
            units.append((h, u))
    if not units: die("no units")
    for h in hs: njobs[h["name"]] = npool.submit(native, h)
    def run_unit(h, u):
        out = W + "/" + h["name"] + "." + u + ".json"
        ut = float(h["opt"].get("time", utime_default)) * (1 if tier == "quick" else 12)
        left = max(10, budget - (time.time() - T0)); ut = min(ut, left)
        cmd = [B + "/fernsym", W + "/" + h["name"] + ".bc", "--entry", u, "--out", out, "--time", str(ut), "--samples", h["opt"].get("samples", "6")]
        for k, f in (("solver_ms", "--solver-ms"), ("hard_ms", "--hard-ms"), ("max_paths", "--max-paths")):
            if k in h["opt"]: cmd += [f, h["opt"][k]]
        rc, o, e = sh(cmd, timeout=ut + 60, preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (9 << 30, 9 << 30)))
        try: r = json.load(open(out))
        except Exception: r = {"violations": [], "incomplete": ["engine failure rc=%s %s" % (rc, e[-300:])], "reach": {}, "samples": [], "stats": {}, "functions": [], "lines": []}
        r["unit"] = u; r["harness"] = h["name"]; r["log"] = e[-3000:]
        return r
    res = list(pool.map(lambda a: run_unit(*a), units))
    # ---- native replay
    def inputs_file(path, ins):
        with open(path, "w") as f:
            for k, (w, v) in ins.items(): f.write("%s %d %d\n" % (k, w, int(v) & ((1 << 64) - 1)))
    byname = {h["name"]: h for h in hs}
    nat_err = []; validated = 0; mismatches = []; samples_out = []
    def nat(hname):
        b, e = njobs[hname].result()
        if b is None and (hname, "x") not in nat_err: nat_err.append((hname, "x")); print("WARNING: native build of %s failed: %s" % (hname, e[-800:]))
        return b
    def validate(r, k, s):
        b = nat(r["harness"])
        if not b: return None
        f = W + "/%s.%s.s%d.in" % (r["harness"], r["unit"], k); inputs_file(f, s["in"])
        rc, o, e = sh([b, r["unit"], f], timeout=60)
        obs = [[x.split()[1], x.split()[2]] for x in o.split("\n") if x.startswith("OBS ")]
        return rc, obs, s
    vj = [(r, pool.submit(validate, r, k, s)) for r in res if not any(v["kind"] != "assert" for v in r["violations"]) for k, s in enumerate(r["samples"])]
    for r, j in vj:
        x = j.result()
        if x is None: continue
        rc, obs, s = x
        want = [[a, str(int(b) & ((1 << 64) - 1))] for a, b in s["obs"]]
        if obs == want and rc in (0, 1): validated += 1
        else: mismatches.append({"unit": r["unit"], "in": s["in"], "engine": want[:20], "native": obs[:20], "rc": rc})
    known = {}
    kf = V + "/known_findings.jsonl"
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l and not l.startswith("fixed:"):
                try: d = json.loads(l)
                except ValueError: continue
                if d.get("property") == prop: known[d["id"]] = d
    viols = []; knownhits = {}; unrepro = []
    ENGINE_ONLY = {"race", "deadlock", "livelock", "mutex"}
    sanbin = {}
    lock = threading.Lock()
    def replay(r, v, n):
        os.makedirs(RP, exist_ok=True)
        f = RP + "/%s.%s.%d.txt" % (r["harness"], r["unit"], n); inputs_file(f, v["inputs"])
        b = nat(r["harness"]); how = ""; ok = False; log = ""
        if v["kind"] in ENGINE_ONLY or (v.get("sched") and v["kind"] != "abort"):
            ok = True; how = "schedule found by the executor (thread interleaving; not replayed natively)"
        elif b:
            rc, o, e = sh([b, r["unit"], f], timeout=60); log = (o + e)[-3000:]
            if v["kind"] == "assert": ok = ("ASSERT " + v["msg"]) in o or ("KNOWN " + v["known"] + " " + v["msg"]) in o or (rc not in (0, 1, 77, 2)); how = "native run fails the assertion"
            elif v["kind"] == "nontermination": ok = rc == 124; how = "native run does not terminate"
            else: ok = rc not in (0, 1, 77, 2); how = "native run ends with status %s" % rc
            if not ok and v["kind"] in ("memory", "abort", "stack"):
                with lock:
                    if r["harness"] not in sanbin: sanbin[r["harness"]] = native(byname[r["harness"]], ("-fsanitize=address", "-g", "-O1", "-D_GLIBCXX_ASSERTIONS"))[0]
                sb = sanbin[r["harness"]]
                if sb:
                    rc, o, e = sh([sb, r["unit"], f], timeout=120, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0")); log = (o + e)[-3000:]
                    ok = rc not in (0, 77, 2) and ("AddressSanitizer" in e or rc < 0 or rc == 134); how = "native run under AddressSanitizer fails"
        with open(f, "a") as g:
            g.write("# unit %s of %s: [%s] %s\n# %s\n" % (r["unit"], r["harness"], v["kind"], v["msg"], how))
            g.write("# schedule: %s\n" % v.get("sched")); g.write("# at " + v["loc"].replace("\n", "\n# ") + "\n"); g.write("# native log:\n# " + log.replace("\n", "\n# ") + "\n")
        return ok, f
    rj = []
    n = 0
    for r in res:
        for v in r["violations"]:
            n += 1
            if n > 60: break
            rj.append((r, v, pool.submit(replay, r, v, n)))
    for r, v, j in rj:
        ok, f = j.result()
        d = {"unit": r["unit"], "kind": v["kind"], "msg": v["msg"], "inputs": {k: x[1] for k, x in v["inputs"].items()}, "loc": v["loc"].split("\n")[0], "replay": f, "known": v["known"]}
        if not ok: unrepro.append(d)
        elif v["known"] and v["known"] in known: knownhits.setdefault(v["known"], []).append(d)
        else: viols.append(d)
    # ---- evidence
    inc = [{"unit": r["unit"], "why": x} for r in res for x in r["incomplete"]]
    vac = [r["unit"] for r in res if not r["reach"] and not r["violations"]]
    def tot(k): return sum(r["stats"].get(k, 0) for r in res)
    for r in res:
        if r["samples"] and len(samples_out) < 12: samples_out.append({"unit": r["unit"], "inputs": {k: x[1] for k, x in r["samples"][-1]["in"].items()}, "observed": r["samples"][-1]["obs"][:16]})
    def short(f):  # template arguments dropped
        out, d = [], 0
        for i, c in enumerate(f):
            if c == "<" and not f[:i].endswith("operator") and not f[:i].endswith("operator<"): d += 1
            elif c == ">" and d: d -= 1
            elif not d: out.append(c)
        return "".join(out)[:200]
    allfns = {f for r in res for f in r["functions"]}
    fns = sorted({short(f) for f in allfns if "fern::" in f})
    nfns = len(allfns)
    lines = {l for r in res for l in r["lines"]}
    perfile = {}
    for l in lines: perfile[l.rsplit(":", 1)[0]] = perfile.get(l.rsplit(":", 1)[0], 0) + 1
    cov = {"states": int(tot("forks") + tot("paths")), "transitions": int(tot("steps")), "traces_validated_against_impl": validated,
           "samples": samples_out, "exhaustive": not inc,
           "units": [{"unit": r["unit"], "reached": r["reach"], **{k: r["stats"].get(k) for k in ("paths", "forks", "merges", "steps", "inputs", "asserts", "asserts_symbolic", "queries", "z3_calls", "fp_precise_calls", "external_calls", "unknown", "solver_s", "wall_s", "rss_mb")}} for r in res],
           "paths": int(tot("paths")), "assertions_checked": int(tot("asserts")), "assertions_decided_by_solver": int(tot("asserts_symbolic")),
           "queries": int(tot("queries")), "solver_calls": int(tot("z3_calls")), "solver_s": round(tot("solver_s"), 3),
           "functions_encoded": fns[:400], "function_instances_encoded": nfns, "source_lines_executed": perfile, "bounds": [b for h in hs for b in h["bounds"]],
           "inconclusive": inc, "vacuous_units": vac, "encoding_mismatches": mismatches, "unreproduced": unrepro,
           "known_findings_hit": {k: x[0] for k, x in knownhits.items()}}
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": [a for h in hs for a in h["assume"]] + COMMON, "wall_s": round(time.time() - T0, 2), "violations": len(viols)}
    if not only: json.dump(ev, open(EV + "/" + prop + ".json", "w"), indent=1)
    for r in res:
        if os.environ.get("FS_LOG"): print(r["log"])
    print("%s %s: %d units, %d paths, %d instructions, %d assertions (%d symbolic), %d queries, solver %.1fs, %d traces validated, wall %.1fs" % (prop, tier, len(res), tot("paths"), tot("steps"), tot("asserts"), tot("asserts_symbolic"), tot("queries"), tot("solver_s"), validated, time.time() - T0))
    if os.environ.get("FS_TIMES"):
        for r in sorted(res, key=lambda r: -(r["stats"].get("wall_s") or 0))[:12]: print("  time %s" % r["unit"], {k: r["stats"].get(k) for k in ("wall_s", "paths", "queries", "z3_calls", "solver_s", "unknown")})
    for i in inc: print("INCONCLUSIVE %s: %s" % (i["unit"], i["why"][:400]))
    for u in vac: print("VACUOUS %s" % u)
    for m in mismatches: print("ENCODING-MISMATCH %s" % json.dumps(m)[:700])
    for d in unrepro: print("UNREPRODUCED %s [%s] %s %s @ %s" % (d["unit"], d["kind"], d["msg"], json.dumps(d["inputs"])[:300], d["loc"][:300]))
    for k in sorted(known):
        if k in knownhits: print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, known[k].get("what", "")))
    for d in viols: print("  %s [%s] %s inputs=%s @ %s" % (d["unit"], d["kind"], d["msg"], json.dumps(d["inputs"])[:400], d["loc"][:200]))
    seen = set()
    for d in viols[:1]: print("VIOLATION property=%s replay=%s" % (prop, d["replay"]))
    if os.environ.get("FS_KEEP") is None: shutil.rmtree(W, ignore_errors=True)
    sys.stdout.flush(); os._exit(1 if viols else 0)

COMMON = ["signed integer overflow wraps (code lowered with -fwrapv, as the repository's unoptimised build behaves)",
          "allocation never fails; objects are at fixed addresses chosen by the executor",
          "libstdc++/libc shared-library code is replaced by engine/rt.cpp; the header-only parts are executed as they are",
          "libm functions other than sqrt/floor/ceil/trunc/round/fmod/fabs are uninterpreted; counterexamples are evaluated with the host's libm"]
main()
