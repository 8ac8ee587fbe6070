#!/usr/bin/env python3
"""Driver: builds the simulators from /repo's working tree, explores, gates,
minimises and reports.  Usage: vsim.py setup | check <ID> | replay <FILE> | build <PART>"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
REPO = os.environ.get("VSIM_REPO", "/repo")
BUILD = os.environ.get("VSIM_BUILD", os.path.join(ROOT, "build"))
JOBS = int(os.environ.get("VSIM_JOBS", os.cpu_count() or 8))
from checks import CHECKS, PARTS

DEFS = ["-DSPDLOG_ACTIVE_LEVEL=SPDLOG_LEVEL_TRACE", "-DSPDLOG_SHARED_LIB", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL",
        "-DFMT_SHARED", "-DBOOST_ENABLE_ASSERT_DEBUG_HANDLER", "-DLF_REDIRECT_ASSERTS"]
BASE = ["-std=gnu++20", "-g0", "-w", "-pipe", "-fno-omit-frame-pointer", "-I" + REPO + "/lib", "-isystem", "/usr/include/eigen3", "-I" + ROOT] + DEFS
WRAP = ["-Wl,--wrap=malloc", "-Wl,--wrap=free", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc"]
VARIANTS = {
    # variant: (lib+harness flags, simulator-core flags, link flags, core sources)
    "asan": (["-O1", "-fsanitize=address"], ["-O1", "-fsanitize=address"], ["-fsanitize=address"] + WRAP, ["engine", "disk", "heap", "clock"]),
    "plain": (["-O1"], ["-O2"], WRAP, ["engine", "disk", "clock", "pheap"]),
    "thr": (["-O1", "-fsanitize=thread"], ["-O2", "-fno-threadsafe-statics"], WRAP + ["-Wl,--wrap=memcpy", "-Wl,--wrap=memmove", "-Wl,--wrap=memset", "-rdynamic"], ["engine", "disk", "clock", "thr"]),
}

def lib_sources(mods):
    out = []
    for m in mods:
        d = os.path.join(REPO, "lib", "lf", m)
        for dp, dn, fn in os.walk(d):
            dn[:] = sorted(x for x in dn if x not in ("test", "tests", "test_utils", "snippets", "cmake"))
            out += [os.path.join(dp, f) for f in sorted(fn) if f.endswith(".cc") and f != "lehrfem_info.cc"]
    return out

def env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.environ.get("VSIM_CCACHE", os.path.join(BUILD, "ccache"))
    e["CCACHE_NOHASHDIR"] = "1"
    e["CCACHE_MAXSIZE"] = "6G"
    e["CCACHE_COMPILERCHECK"] = "content"
    e.pop("CCACHE_DISABLE", None)
    e["LC_ALL"] = "C"
    return e

HEAVY = ["vtk_writer.cc", "gmsh_file_v4", "gmsh_file_v2", "quad_o1.cc", "mesh_hierarchy.cc", "quad_rules_tria", "tour", "gmsh_reader"]
def weight(src):
    for i, h in enumerate(HEAVY):
        if h in src: return i
    return 99 if "/repo" in src else 20

ALLMODS = ["base", "geometry", "quad", "mesh", "refinement", "assemble", "fe", "uscalfe", "io"]
def build(parts):
    try: return build_(parts, False)
    except LinkError: return build_(parts, True)  # dependencies between modules changed

class LinkError(RuntimeError): pass

def build_(parts, full):
    """Returns {part: executable}. Raises on compile failure."""
    cc = ["ccache"] if shutil.which("ccache") else []
    jobs, objs = {}, {}
    for part in parts:
        P = PARTS[part]
        lf, sf, ln, core = VARIANTS[P["variant"]]
        lst = []
        mods = ALLMODS if full else P["modules"]
        excl = [] if full else P.get("exclude", [])
        srcs = [(s, lf) for s in lib_sources(mods) if not any(x in s for x in excl)]
        srcs += [(os.path.join(ROOT, "harness", h), lf) for h in P["sources"]]
        srcs += [(os.path.join(ROOT, "sim", c + ".cc"), sf) for c in core]
        for s, fl in srcs:
            extra = P.get("cflags", [])
            key = hashlib.sha1((P["variant"] + " ".join(fl + extra) + s).encode()).hexdigest()[:16]
            o = os.path.join(BUILD, "obj", P["variant"], key + ".o")
            jobs[o] = (s, cc + ["g++"] + BASE + fl + extra + ["-c", s, "-o", o])
            lst.append(o)
        objs[part] = lst
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    for o in jobs: os.makedirs(os.path.dirname(o), exist_ok=True)
    E = env()
    def comp(item):
        o, (s, cmd) = item
        t = time.time()
        r = subprocess.run(cmd, env=E, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if os.environ.get("VSIM_TIMES"): print("%.1f %s" % (time.time() - t, s), file=sys.stderr)
        return s, r.returncode, r.stdout
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for s, rc, out in ex.map(comp, sorted(jobs.items(), key=lambda x: weight(x[1][0]))):
            if rc: raise RuntimeError("compilation of %s failed:\n%s" % (s, "\n".join([l for l in out.split("\n") if "error:" in l][:10]) + "\n" + out[-3000:]))
    exes = {}
    def link(part):
        P = PARTS[part]
        ln = VARIANTS[P["variant"]][2]
        exe = os.path.join(BUILD, "bin", part)
        cmd = ["g++"] + objs[part] + ln + P.get("ldflags", []) + ["-o", exe, "-lspdlog", "-lfmt", "-lpthread", "-ldl"]
        r = subprocess.run(cmd, env=E, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise LinkError("link of %s failed:\n%s" % (part, r.stdout[-3000:]))
        return part, exe
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for part, exe in ex.map(link, parts): exes[part] = exe
    return exes

def run_env(P):
    e = dict(PATH=os.environ.get("PATH", "/usr/bin:/bin"), LC_ALL="C", TZ="UTC", HOME="/nonexistent")
    for k, v in P.get("params", {}).items(): e["SIM_" + k] = str(v)
    for k, v in os.environ.items():
        if k.startswith("SIMX_"): e["SIM_" + k[5:]] = v
    return e

def write_replay(path, part, prop, cls, msg, seed, streams):
    with open(path, "w") as f:
        f.write("# replay with: python3 bin/vsim.py replay %s\n" % path)
        f.write("property %s\npart %s\nclass %s\nseed %d\n" % (prop, part, cls, seed))
        for line in msg.splitlines() or [""]: f.write("# %s\n" % line)
        for i, s in enumerate(streams): f.write("stream %d: %s\n" % (i, " ".join(map(str, s))))

def replay(exe, P, path, trace=False):
    r = subprocess.run([exe, "replay", path] + (["--trace", "-"] if trace else []), env=run_env(P), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=300)
    if trace: return r.stdout
    try: return json.loads(r.stdout)
    except ValueError: return dict(verdict=-1, cls="", hash="", msg=r.stdout[-500:] + r.stderr[-500:], streams=[[], [], [], []], events=0)

def shrink(exe, P, part, prop, viol, tmp, budget):
    """Greedy delta debugging of all streams, every attempt in a fresh process."""
    cls = viol["cls"]
    best = [list(s) for s in viol["streams"]]
    best_res = viol
    t0 = time.time()
    n = [0]
    def attempt(cand):
        n[0] += 1
        p = os.path.join(tmp, "c%d.replay" % n[0])
        write_replay(p, part, prop, cls, "", viol["seed"], cand)
        try: r = replay(exe, P, p)
        except subprocess.TimeoutExpired: r = dict(verdict=-1, cls="")
        os.unlink(p)
        return cand, r
    def size(st): return (sum(len(s) for s in st), sum(sum(s) for s in st))
    def ok(r): return r["verdict"] == 1 and r["cls"] == cls
    def strip(st):
        st = [list(s) for s in st]
        for s in st:
            while s and s[-1] == 0: s.pop()
        return st
    best = strip(best)
    ex = cf.ThreadPoolExecutor(JOBS)
    def try_all(cands):
        nonlocal best, best_res
        for i in range(0, len(cands), JOBS):
            if time.time() - t0 > budget: return False
            res = list(ex.map(attempt, cands[i:i + JOBS]))
            good = [(c, r) for c, r in res if ok(r)]
            if good:
                # what the run really consumed may be even shorter
                def norm(c, r):
                    u = strip([a[:len(b)] for a, b in zip(r["streams"], r["streams"])])
                    return u if size(u) <= size(c) else c
                c, r = min(good, key=lambda x: size(x[0]))
                c2 = strip(norm(c, r))
                if size(c2) < size(best):
                    best, best_res = c2, r
                    return True
        return None
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        # 1. empty / truncate streams
        cands = []
        for k in (2, 1, 3, 0):
            L = len(best[k])
            for cut in sorted({0, L // 8, L // 4, L // 2, L - L // 4, L - L // 8, L - 1}):
                if 0 <= cut < L:
                    c = [list(s) for s in best]; c[k] = c[k][:cut]; cands.append(strip(c))
        if cands and try_all(cands): progress = True; continue
        # 2. delete / zero chunks
        for k in (1, 2, 3, 0):
            L = len(best[k])
            sz = max(1, L // 2)
            while sz >= 1 and time.time() - t0 < budget:
                cands = []
                for a in range(0, len(best[k]), sz):
                    c = [list(s) for s in best]; del c[k][a:a + sz]; cands.append(strip(c))
                    if any(best[k][a:a + sz]):
                        c = [list(s) for s in best]; c[k][a:a + sz] = [0] * len(c[k][a:a + sz]); cands.append(strip(c))
                if len(cands) > 400: cands = cands[:400]
                if cands and try_all(cands): progress = True
                else: sz //= 2
        # 3. lower single values
        for k in (1, 2, 3, 0):
            cands = []
            for i, v in enumerate(best[k][:200]):
                for nv in sorted({v // 2, v - 1}):
                    if 0 < nv < v:
                        c = [list(s) for s in best]; c[k][i] = nv; cands.append(c)
            if cands and try_all(cands): progress = True
    ex.shutdown()
    return best, best_res, n[0]

def known_findings():
    p = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"): out.append(json.loads(l))
    return out

def check(prop):
    t0 = time.time()
    C = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    exes = build(C["parts"])
    tb = time.time() - t0
    known = [k for k in known_findings() if k.get("property") == prop and k.get("status") == "known"]
    summaries, reports, knownhits, errors, samples = {}, [], [], [], []
    tmp = tempfile.mkdtemp(prefix="vsim-")
    rdir = os.path.join(ROOT, "replays")
    os.makedirs(rdir, exist_ok=True)
    try:
        for part in C["parts"]:
            P = PARTS[part]
            runs, secs = P["quick"] if tier == "quick" else P["thorough"]
            if os.environ.get("VSIM_RUNS"): runs = int(os.environ["VSIM_RUNS"])
            if os.environ.get("VSIM_SECS"): secs = float(os.environ["VSIM_SECS"])
            out = os.path.join(tmp, part + ".json")
            r = subprocess.run([exes[part], "explore", "--seed", str(seed), "--runs", str(runs), "--seconds", str(secs), "--jobs", str(JOBS), "--out", out],
                               env=run_env(P), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode or not os.path.exists(out):
                errors.append("%s: simulator exited with %d: %s" % (part, r.returncode, r.stdout[-2000:]))
                continue
            S = json.load(open(out))
            summaries[part] = S
            print("%s: %d runs (%d discarded, %d loud) in %.1fs, %d distinct executions, %d violating runs" %
                  (part, S["runs"], S["discarded"], S["loud_failures"], S["wall"], S["distinct_executions"], S["violating_runs"]), flush=True)
            if S["rerun_mismatch"]: errors.append("%s: %d of %d repeated runs diverged" % (part, S["rerun_mismatch"], S["reruns"]))
            if S["runs"] == 0: errors.append(part + ": no run completed")
            cnt = 0
            for v in S["violations"]:
                res = v["result"]
                p = os.path.join(tmp, "raw.replay")
                write_replay(p, part, prop, v["class"], res["msg"], res["seed"], res["streams"])
                r2 = replay(exes[part], P, p)
                if not (v["reproduced"] and r2["verdict"] == 1 and r2["cls"] == res["cls"] and r2["hash"] == res["hash"]):
                    errors.append("%s: violation %s of run %d does not replay (%s vs %s: %s)" % (part, v["class"], v["run"], res["hash"], r2["hash"], r2["msg"][:300]))
                    continue
                k = next((k for k in known if k["class"] == v["class"] and re.search(k["match"], res["msg"], re.S)), None)
                if k:
                    # the class may hide a different violation: look at what the simulator lists separately
                    knownhits.append(k)
                    continue
                budget = (25 if cnt == 0 else 10) if tier == "quick" else 120
                if cnt >= 4: budget = 0
                cnt += 1
                best, bres, tries = shrink(exes[part], P, part, prop, res, tmp, budget)
                name = "%s-%s-%s.replay" % (prop, part, re.sub(r"[^A-Za-z0-9_.-]", "_", v["class"]))
                rp = os.path.join(rdir, name)
                write_replay(rp, part, prop, v["class"], bres["msg"], res["seed"], best)
                r3 = replay(exes[part], P, rp)
                if r3["verdict"] != 1 or r3["cls"] != v["class"]:
                    write_replay(rp, part, prop, v["class"], res["msg"], res["seed"], res["streams"])
                    r3 = res
                reports.append((v["class"], os.path.join("replays", name), r3["msg"], v["count"], tries))
            for i in range(2):
                q = subprocess.run([exes[part], "one", "--seed", str(seed), "--run", str(3 + i), "--trace", "-"], env=run_env(P), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
                lines = q.stdout.splitlines()
                samples.append(dict(part=part, run=3 + i, events=lines[:12] + (["..."] if len(lines) > 13 else [])))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    tot = lambda k: sum(s[k] for s in summaries.values())
    simwall = sum(s["wall"] for s in summaries.values()) or 1
    faults, probes, loud = {}, {}, {}
    for s in summaries.values():
        for k, v in s["faults"].items():
            d = faults.setdefault(k, dict(hits=0, runs=0)); d["hits"] += v["hits"]; d["runs"] += v["runs"]
        for k, v in s["probes"].items():
            d = probes.setdefault(k, dict(hits=0, runs=0)); d["hits"] += v["hits"]; d["runs"] += v["runs"]
        for k, v in s["loud"].items(): loud[k] = loud.get(k, 0) + v
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(evaluations=tot("runs"), distinct_nontrivial=tot("distinct_executions"),
            rule="One evaluation = one simulated run drawn from (VERIF_SEED, run number): " + C["rule"] +
                 " Non-trivial = completed without discarding and drew at least one choice; distinct = different hash of the full event log (operations, faults, results).",
            samples=samples, runs_per_hour=int(tot("runs") / simwall * 3600), seeds_per_hour=int(tot("runs") / simwall * 3600),
            simulated_seconds=round(tot("sim_seconds"), 3), faults_injected=faults, probes=probes, loud_failures=loud,
            discarded_runs=tot("discarded"), events=tot("events"), choices=tot("choices"),
            distinct_state_features=tot("distinct_features"), feature_measure=C.get("feature", "hash of selected abstract states/interleavings reported by the harness"),
            determinism_reruns=tot("reruns"), determinism_mismatches=tot("rerun_mismatch"),
            parts={k: dict(runs=s["runs"], wall=s["wall"], distinct=s["distinct_executions"], features=s["distinct_features"]) for k, s in summaries.items()},
            real_components=C["real"], stubbed_components=C["stub"], build_s=round(tb, 1)),
        assumptions=C.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(reports))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    for k in {json.dumps(k, sort_keys=True) for k in knownhits}:
        print("KNOWN-FINDING: property=%s %s" % (prop, json.loads(k)["what"]))
    for cls, rp, msg, count, tries in reports:
        print("  %s (%d runs, %d shrink attempts): %s" % (cls, count, tries, msg[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    if reports: return 1
    if errors:
        for e in errors: print("ERROR " + e)
        return 2
    print("OK %s: %.1fs (build %.1fs)" % (prop, time.time() - t0, tb))
    return 0

def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        for t in ("g++",):
            if not shutil.which(t): print("missing " + t); return 1
        os.makedirs(BUILD, exist_ok=True)
        print("setup ok")
        return 0
    if a[:1] == ["check"] and len(a) == 2: return check(a[1])
    if a[:1] == ["build"]:
        print(build(a[1:])); return 0
    if a[:1] == ["replay"] and len(a) >= 2:
        part = next(l.split()[1] for l in open(a[1]) if l.startswith("part "))
        exe = build([part])[part]
        print(replay(exe, PARTS[part], os.path.abspath(a[1]), trace=True))
        r = replay(exe, PARTS[part], os.path.abspath(a[1]))
        return 1 if r["verdict"] == 1 else 0
    print(__doc__); return 2
if __name__ == "__main__": sys.exit(main())
