#!/usr/bin/env python3
"""Driver: builds the symbolic engine, compiles /repo's current sources and a harness to LLVM bitcode, explores every
path of the harness entries symbolically, replays counterexamples against the natively compiled real code, and writes
evidence.  Usage: vp.py check <ID> | vp.py replay <file> | vp.py setup | vp.py run <ID> <entry>"""
import sys, os, re, json, hashlib, subprocess, time, glob, threading, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(V, "build")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
CXX = "clang++-18"
NCPU = min(8, os.cpu_count() or 4)
LLVM = "/usr/lib/llvm-18"
BASE = ["-std=c++17", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + V + "/rt", "-Wno-everything"]
DEFAULTS = {
    "CPPTRACE_ADDR2LINE_PATH": '"/usr/bin/addr2line"', "CPPTRACE_DEMANGLE_WITH_CXXABI": None,
    "CPPTRACE_GET_SYMBOLS_WITH_ADDR2LINE": None, "CPPTRACE_HAS_CXX_EXCEPTION_TYPE": None,
    "CPPTRACE_HAS_DL_FIND_OBJECT": None, "CPPTRACE_STATIC_DEFINE": None, "CPPTRACE_UNWIND_WITH_UNWIND": None,
    "HAS_ATTRIBUTE_PACKED": None, "NOMINMAX": None,
}
SYMFLAGS = ["-O1", "-fno-pic", "-fno-pie", "-g1", "-emit-llvm", "-c", "-fno-builtin", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
            "-DVP_SYM=1", "-fno-access-control",
            "-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,return,unreachable,bool",
            "-fsanitize-trap=all"]
NATFLAGS = ["-O1", "-g1", "-emit-llvm", "-c", "-fno-builtin", "-fno-access-control"]
ASAN = ["-fsanitize=address,signed-integer-overflow,shift,integer-divide-by-zero,bounds,return,unreachable,bool,null",
        "-fno-sanitize-recover=all"]
print_lock = threading.Lock()
def log(*a):
    with print_lock:
        print(*a, file=sys.stderr, flush=True)

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str): p = p.encode()
        h.update(p); h.update(b"\0")
    return h.hexdigest()[:20]
def fsha(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]
def tree(*dirs):
    r = []
    for d in dirs:
        for root, _, fs in os.walk(d):
            r += [os.path.join(root, f) for f in fs]
    return r
def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    return p.returncode, p.stdout
def must(cmd, **kw):
    rc, out = run(cmd, **kw)
    if rc:
        raise RuntimeError("command failed (%d): %s\n%s" % (rc, " ".join(cmd), out[-6000:]))
    return out
def atomic(cmd, out, **kw):
    """run cmd with {out} replaced by a temporary that is renamed into place"""
    tmp = out + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
    must([tmp if c == "{out}" else c for c in cmd], **kw)
    os.rename(tmp, out)

# ------------------------------------------------------------------ builds
def engine():
    src = [V + "/engine/" + f for f in ("interp.cpp", "expr.cpp", "symx.h", "expr.h")]
    exe = BUILD + "/symx-" + fsha(src)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        objs = []
        def one(f):
            o = BUILD + "/eng-%s-%d.o" % (os.path.basename(f), os.getpid())
            must([CXX, "-O2", "-std=c++17", "-fno-rtti", "-I" + LLVM + "/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
                  "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-c", f, "-o", o])
            return o
        with ThreadPoolExecutor(2) as ex: objs = list(ex.map(one, src[:2]))
        atomic([CXX] + objs + ["-o", "{out}", "-L" + LLVM + "/lib", "-lLLVM-18", "-lz3"], exe)
        for o in objs: os.unlink(o)
    return exe

_repo_hash = None
def repo_hash():
    global _repo_hash
    if _repo_hash is None: _repo_hash = fsha(tree(REPO + "/src", REPO + "/include"))
    return _repo_hash
def defs_of(over):
    d = dict(DEFAULTS)
    for k, v in (over or {}).items():
        if v is False: d.pop(k, None)
        else: d[k] = None if v is True else v
    return ["-D%s" % k if v is None else "-D%s=%s" % (k, v) for k, v in sorted(d.items())]
def compile_bc(src, flags, key):
    out = "%s/bc/%s-%s.bc" % (BUILD, os.path.basename(src).replace(".", "_"), sha(src, key, " ".join(flags)))
    if not os.path.exists(out):
        os.makedirs(BUILD + "/bc", exist_ok=True)
        atomic([CXX] + flags + [src, "-o", "{out}"], out)
    return out
def repo_tus():
    return sorted(p for p in glob.glob(REPO + "/src/**/*.cpp", recursive=True))

class Group:
    def __init__(self, d): self.d = d; self.entries = []
    @property
    def defs(self): return defs_of(self.d.get("defs"))
    def build(self, mode, bounds, pool):
        """mode: sym | asan | plain. Returns linked bitcode (sym) or executable."""
        g = self.d
        flags = BASE + self.defs + (SYMFLAGS if mode == "sym" else NATFLAGS + (ASAN if mode == "asan" else []))
        flags = ["-I" + i.replace("$V", V) for i in g.get("inc", [])] + ["-I" + V + "/rt/shim"] + flags
        skip = g.get("skip", [])
        shim = fsha(tree(V + "/rt/shim"))
        jobs = [(V + "/rt/shim_io.cpp", flags, shim)]
        for t in repo_tus():
            rel = os.path.relpath(t, REPO + "/src")
            if any(re.search(s, rel) for s in skip): continue
            jobs.append((t, flags + g.get("tuflags", []), repo_hash() + shim))
        hkey = repo_hash() + fsha(tree(V + "/harness", V + "/rt"))
        bd = ["-D%s=%s" % kv for kv in sorted(bounds.items())]
        for h in g["harness"]:
            jobs.append((V + "/harness/" + h, flags + bd + ["-DVP_HARNESS=1"] , hkey))
        nsrc = len(jobs)
        if mode == "sym":
            rtflags = ["-std=c++17", "-O1", "-g1", "-I" + V + "/rt", "-emit-llvm", "-c", "-fno-builtin",
                       "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-Wno-everything"]
            for r in ["rt.cpp"] + g.get("rt", []):
                jobs.append((V + "/rt/" + r, rtflags, fsha(tree(V + "/rt"))))
        bcs = list(pool.map(lambda j: compile_bc(*j), jobs))
        rtbcs = bcs[nsrc:]
        key = sha(mode, fsha([V + "/engine/interp.cpp"]) if g.get("guardcalls") else "", *bcs, json.dumps(g, sort_keys=True), ",".join(e["name"] for e in self.entries))
        linked = BUILD + "/bc/linked-" + key + ".bc"
        if not os.path.exists(linked):
            raw = linked + ".raw%d" % os.getpid()
            must(["llvm-link-18", "-o", raw] + (bcs[:nsrc] if g.get("guardcalls") else bcs))
            if g.get("guardcalls"):
                # announce the calls to functions outside the sources, see rt/sym.h
                must([engine(), "--guard-calls", raw + ".g", raw]); os.rename(raw + ".g", raw)
                if mode == "sym": must(["llvm-link-18", "-o", raw, raw] + rtbcs)
            if mode == "sym":
                api = ",".join(e["name"] for e in self.entries)
                syms = must(["llvm-nm-18", "--defined-only", "-j", raw]).split()
                keep = sorted(set(s for s in syms if s.startswith(("vp_env_", "vp_keep_")) or s in RTKEEP) | set(e["name"] for e in self.entries))
                lst = linked + ".lst%d" % os.getpid()
                open(lst, "w").write("\n".join(keep) + "\n")
                atomic(["opt-18", "-passes=internalize,globaldce", "--internalize-public-api-file=" + lst, raw, "-o", "{out}"], linked)
                os.unlink(lst); os.unlink(raw)
            else:
                os.rename(raw, linked)
        if mode == "sym": return linked
        exe = BUILD + "/replay-" + key + sha(fsha(tree(V + "/rt")))
        if not os.path.exists(exe):
            rw = exe + ".rw.bc"
            must([engine(), "--rewrite", rw, linked])
            san = ASAN if mode == "asan" else []
            ob, nob = exe + ".rw.o", exe + ".nat.o"
            f1 = pool.submit(must, [CXX, "-O1", "-g1", "-Wno-everything", "-c", rw, "-o", ob])
            f2 = pool.submit(must, [CXX, "-O1", "-g1", "-std=c++17", "-c"] + san + g.get("nativeflags", []) + [V + "/rt/native.cpp", "-I" + V + "/rt", "-o", nob])
            f1.result(); f2.result()
            atomic([CXX, "-rdynamic"] + san + [ob, nob, "-o", "{out}", "-ldl", "-lpthread"] + g.get("nativelibs", []), exe)
            for x in (rw, ob, nob): os.unlink(x)
        return exe
RTKEEP = set()

def parse(pid, tier):
    """harness directives"""
    main = V + "/harness/" + pid + ".cpp"
    groups, bounds, meta, cur = [], {}, {"assumptions": [], "bounds_text": []}, None
    for line in open(main):
        m = re.match(r"//@(\w+)\s+(.*)$", line)
        if not m: continue
        k, rest = m.group(1), m.group(2).strip()
        if k == "group":
            d = json.loads(rest); d.setdefault("harness", [pid + ".cpp"]); cur = Group(d); groups.append(cur)
        elif k == "entry":
            if cur is None: cur = Group({"harness": [pid + ".cpp"]}); groups.append(cur)
            d = json.loads(rest)
            if d.get("tier", tier) == tier: cur.entries.append(d)
        elif k == "bound":
            n, q, t = rest.split()[:3]; bounds[n] = q if tier == "quick" else t
        elif k == "assume": meta["assumptions"].append(rest)
        elif k == "bounds": meta["bounds_text"].append(rest)
        else: raise RuntimeError("bad directive " + line)
    return [g for g in groups if g.entries], bounds, meta

# ------------------------------------------------------------------ exploration
class Tokens:
    def __init__(self, n): self.n = n; self.c = threading.Condition()
    def acquire(self, k):
        with self.c:
            while self.n < k: self.c.wait()
            self.n -= k
    def release(self, k):
        with self.c: self.n += k; self.c.notify_all()

def explore(eng, bc, e, tokens, deadline, work, outdir):
    k = min(NCPU, e.get("jobs", 1))
    tokens.acquire(k)
    try:
        left = deadline - time.time()
        if left < 5: return {"incomplete": {"no time left": 1}, "entry": e["name"]}
        pre = os.path.join(outdir, e["name"])
        cmd = [eng, "--entry", e["name"], "--out", pre, "--time", str(int(min(left, e.get("time", 100000)))), "--jobs", str(k),
               "--mem", str(e.get("mem", 3000 * k)), "--max-insts", str(e.get("max_insts", 20000000)), "--max-viol", str(e.get("max_viol", 3))]
        if e.get("no_uninit"): cmd.append("--no-uninit")
        cmd.append(bc)
        t = time.time()
        rc, out = run(cmd)
        r = merge(pre)
        r["entry"] = e["name"]; r["wall"] = time.time() - t
        if rc != 0: r["incomplete"]["engine exit %d: %s" % (rc, out[-800:])] = 1
        return r
    finally:
        tokens.release(k)

SUMS = ["paths", "insts", "forks", "assume_pruned", "states", "queries", "cache_hits", "model_hits", "sat", "unsat", "unknown", "slow", "order", "asserts", "solver_time"]
def merge(pre):
    r = {k: 0 for k in SUMS}
    r.update(incomplete={}, covers=set(), functions={}, violations=[], witnesses=[], max_path_insts=0)
    for f in sorted(glob.glob(glob.escape(pre) + ".[0-9]*.json")):
        try: j = json.load(open(f))
        except Exception as ex:
            r["incomplete"]["unreadable engine output %s" % ex] = 1; continue
        for k in SUMS: r[k] += j.get(k, 0)
        r["max_path_insts"] = max(r["max_path_insts"], j["max_path_insts"])
        for k, v in j["incomplete"].items(): r["incomplete"][k] = r["incomplete"].get(k, 0) + v
        r["covers"] |= set(j["covers"])
        for n, fl in j["functions"]: r["functions"][n] = fl
        r["violations"] += j["violations"]; r["witnesses"] += j["witnesses"]
    return r

def write_vars(path, vs):
    with open(path, "w") as f:
        for n, w, v in vs: f.write("%s %d %d\n" % (n.replace(" ", "_"), w, v))

def native_run(exe, entry, varfile, valgrind=False, timeout=60):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=1")
    cmd = [exe, entry, varfile]
    if valgrind: cmd = ["valgrind", "-q", "--error-exitcode=88", "--show-mismatched-frees=no"] + cmd
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, timeout=timeout, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        return "timeout", (ex.stdout or b"").decode(errors="replace") if isinstance(ex.stdout, bytes) else (ex.stdout or "")

def short(out):
    lines = [l for l in out.splitlines() if not l.startswith("COVER")]
    return "\n".join(lines[:25])[:2500]

def known(pid):
    try: return [k for k in json.load(open(V + "/known_findings.json"))["findings"] if k["property"] == pid and k.get("status") == "known"]
    except FileNotFoundError: return []

def demangle(names):
    if not names: return []
    rc, out = run(["llvm-cxxfilt-18"], input="\n".join(names))
    return out.splitlines()

def check(pid):
    t0 = time.time()
    tier = TIER
    budget = float(os.environ.get("VP_BUDGET", "780" if tier == "quick" else "6000"))
    groups, bounds, meta = parse(pid, tier)
    for kv in filter(None, os.environ.get("VP_BOUNDS", "").split(",")):
        k, v = kv.split("="); bounds[k] = v
    only = os.environ.get("VP_ENTRY")
    if only:
        for g in groups: g.entries = [e for e in g.entries if re.search(only, e["name"])]
        groups = [g for g in groups if g.entries]
    outdir = tempfile.mkdtemp(prefix="vp-%s-" % pid, dir=os.environ.get("TMPDIR", "/tmp"))
    os.makedirs(V + "/evidence/replays", exist_ok=True)
    rcode = 2
    try:
        eng = engine()
        tokens = Tokens(NCPU)
        results, natives = [], {}
        with ThreadPoolExecutor(NCPU) as pool, ThreadPoolExecutor(64) as runners, ThreadPoolExecutor(4) as gp:
            bcs = list(gp.map(lambda g: g.build("sym", bounds, pool), groups))
            deadline = t0 + budget
            futs = []
            order = sorted(((g, bc, e) for g, bc in zip(groups, bcs) for e in g.entries), key=lambda x: -x[2].get("jobs", 1))
            for g, bc, e in order:
                futs.append((g, e, runners.submit(explore, eng, bc, e, tokens, deadline, None, outdir)))
            natf = {id(g): gp.submit(lambda g=g: g.build(g.d.get("native", "asan"), bounds, pool)) for g in groups if g.d.get("native", "asan") != "none"}
            for g, e, f in futs: results.append((g, e, f.result()))
            for g in groups:
                if id(g) in natf: natives[id(g)] = natf[id(g)].result()
        rcode = report(pid, tier, t0, groups, bounds, meta, results, natives, outdir)
    finally:
        shutil.rmtree(outdir, ignore_errors=True)
    return rcode

def report(pid, tier, t0, groups, bounds, meta, results, natives, outdir):
    fails, problems, knowns = [], [], []
    kf = known(pid)
    validated, valfail = 0, []
    samples = []
    tot = {k: 0 for k in SUMS}
    funcs, entries = {}, []
    nrep = 0
    for g, e, r in results:
        if "paths" not in r:
            problems.append("%s: %s" % (e["name"], r["incomplete"])); continue
        for k in SUMS: tot[k] += r[k]
        funcs.update(r["functions"])
        seen = set()
        for v in r["violations"]:
            if v["kind"] == "unsupported": continue
            key = (v["kind"], v["msg"], v["where"])
            if key in seen: continue
            seen.add(key)
            desc = "%s: %s at %s [%s]" % (v["kind"], v["msg"], v["where"], e["name"])
            nrep += 1
            rp = "%s/evidence/replays/%s-%s-%d" % (V, pid, e["name"], nrep)
            write_vars(rp + ".vars", v["vars"])
            confirmed, how = False, ""
            exe = natives.get(id(g))
            if e.get("replay") == "model":
                confirmed, how = True, "schedule/model level counterexample, not natively observable"
            elif exe:
                rc, out = native_run(exe, e["name"], rp + ".vars")
                how = "native exit %s\n%s" % (rc, short(out))
                confirmed = "REPLAY-START" in out and rc not in (0, 66, 67, 99)
                if not confirmed and v["kind"] in ("uninit", "memory"):
                    try:
                        with ThreadPoolExecutor(NCPU) as pool: pexe = g.build("plain", bounds, pool)
                        rc2, out2 = native_run(pexe, e["name"], rp + ".vars", valgrind=True, timeout=120)
                        how += "\nvalgrind exit %s\n%s" % (rc2, out2[-3000:])
                        confirmed = rc2 not in (0, 66, 67, 99)
                    except RuntimeError as ex: how += "\n" + str(ex)
            json.dump({"property": pid, "entry": e["name"], "kind": v["kind"], "msg": v["msg"], "where": v["where"], "stack": v["stack"], "notes": v["notes"],
                       "vars": v["vars"], "bounds": bounds, "native": how, "confirmed": confirmed, "tier": tier}, open(rp + ".json", "w"), indent=1)
            os.unlink(rp + ".vars")
            hit = None
            for k in kf:
                if re.search(k["match"], desc): hit = k
            if hit: knowns.append((hit, desc)); continue
            (fails if confirmed else problems).append((desc, rp + ".json", how) if confirmed else "counterexample not reproduced natively: %s (%s)\n%s" % (desc, rp + ".json", how))
        for k, n in r["incomplete"].items():
            if k == "stopped early" and r["violations"]: continue
            problems.append("%s: incomplete: %s (%d)" % (e["name"], k, n))
        miss = [c for c in e.get("covers", []) if c not in r["covers"]]
        if miss and not r["violations"]: problems.append("%s: expected situations never reached: %s" % (e["name"], miss))
        if r["paths"] == 0 and not r["violations"]: problems.append("%s: no path completed (vacuous)" % e["name"])
        # validate witnesses of completed paths against the native build
        exe = natives.get(id(g))
        if exe and not r["violations"] and e.get("replay") != "model":
            wit = r["witnesses"]
            step = max(1, len(wit) // 12)
            pick = wit[::step][:16]
            for i, w in enumerate(pick):
                vf = os.path.join(outdir, "w%s%d" % (e["name"], i))
                write_vars(vf, w["vars"])
                rc, out = native_run(exe, e["name"], vf)
                want = set(c.replace(" ", "_") for c in w["covers"])
                got = set(m.replace(" ", "_") for m in re.findall(r"^COVER (.*)$", out, re.M))
                if rc == 0 and want <= got: validated += 1
                else: valfail.append("%s: symbolic path not reproduced natively: exit %s, covers %s vs %s: %s" % (e["name"], rc, sorted(want), sorted(got), short(out)[:1500]))
        for w in r["witnesses"][:2]:
            if len(samples) < 6: samples.append({"entry": e["name"], "covers": w["covers"], "inputs": [[n, x] for n, _, x in w["vars"]][:48]})
        entries.append({"entry": e["name"], "paths": r["paths"], "pruned_by_assumption": r["assume_pruned"], "instructions": r["insts"], "queries": r["queries"],
                        "solver_sat": r["sat"], "solver_unsat": r["unsat"], "asserts_decided": r["asserts"], "solver_s": round(r["solver_time"], 2), "wall_s": round(r["wall"], 1),
                        "covers": sorted(r["covers"]), "incomplete": r["incomplete"]})
    if valfail: problems += valfail
    rf = sorted(n for n, f in funcs.items() if "/src/" in f or "include/cpptrace" in f or "include/ctrace" in f)
    dem = demangle(rf)
    ev = {"property": pid, "tier": tier, "seed": SEED, "level": "model_checking",
          "coverage": {"states": tot["states"] + len(results), "transitions": tot["insts"], "traces_validated_against_impl": validated, "samples": samples or [{"note": "no completed path"}],
                       "explanation": "states = symbolic states explored (each stands for all inputs satisfying its path condition); transitions = LLVM instructions executed symbolically; traces validated = completed symbolic paths re-run on the natively compiled real code",
                       "paths_completed": tot["paths"], "branch_forks": tot["forks"], "solver_queries": tot["queries"], "queries_answered_by_z3_sat": tot["sat"], "queries_answered_by_z3_unsat": tot["unsat"],
                       "queries_answered_by_cache": tot["cache_hits"], "queries_answered_by_recent_models": tot["model_hits"], "unknown": tot["unknown"], "solver_time_s": round(tot["solver_time"], 2),
                       "asserts_decided": tot["asserts"], "functions_encoded": dem, "functions_encoded_count": len(dem), "bounds": bounds, "bounds_text": meta["bounds_text"], "entries": entries,
                       "exhaustive": not problems},
          "assumptions": meta["assumptions"] + COMMON, "wall_s": round(time.time() - t0, 1), "violations": len(fails)}
    if problems: ev["coverage"]["problems"] = [str(p)[:600] for p in problems][:20]
    json.dump(ev, open("%s/evidence/%s.json" % (V, pid), "w"), indent=1)
    for hit in {id(h): h for h, _ in knowns}.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, hit["what"]))
    log("%s %s: %d entries, %d paths, %d queries (z3 %d/%.1fs), %d traces validated, %d functions, %.1fs" % (pid, tier, len(results), tot["paths"], tot["queries"], tot["sat"] + tot["unsat"], tot["solver_time"], validated, len(dem), time.time() - t0))
    for d, rp, how in fails:
        log("  " + d); log("    " + how.strip()[:500].replace("\n", "\n    "))
    for d, rp, how in fails: print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
    if fails: return 1
    if problems:
        for p in problems: log("  PROBLEM " + str(p)[:700])
        return 2
    return 0
COMMON = ["LLVM 18 IR of the real sources (clang -O1, Linux x86-64) is interpreted; the C/C++ runtime (string functions, exceptions, allocation, container helpers) is modelled in rt/rt.cpp and engine/interp.cpp",
          "inputs beyond the stated bounds are not covered"]

def replay(path):
    j = json.load(open(path))
    groups, bounds, meta = parse(j["property"], j["tier"])
    bounds.update(j["bounds"])
    for g in groups:
        if any(e["name"] == j["entry"] for e in g.entries):
            with ThreadPoolExecutor(NCPU) as pool: exe = g.build(g.d.get("native", "asan"), bounds, pool)
            vf = path + ".vars"
            write_vars(vf, j["vars"])
            rc, out = native_run(exe, j["entry"], vf)
            os.unlink(vf)
            print(out); print("exit", rc)
            return 0 if rc == 0 else 1
    print("no such entry"); return 2

if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "setup": print(engine())
    elif cmd == "check":
        try: sys.exit(check(sys.argv[2]))
        except RuntimeError as ex: log("ERROR", str(ex)); sys.exit(2)
    elif cmd == "replay": sys.exit(replay(sys.argv[2]))
