#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  -- solver-based check of one property against /repo's working tree.

 1. compiles the library sources and the property's harnesses (h/*.cpp) to LLVM bitcode from /repo/src;
 2. runs every harness entry in the symbolic executor engine/bin/vsx (Z3 decides branches and assertions);
 3. replays every counterexample natively (g++ build of the same sources; plain and ASan/UBSan);
 4. validates the encoding: random concrete valuations through both the executor and the native build;
 5. writes evidence/<PROPERTY>.json.
Exit 0: held on everything explored; exit 1 + VIOLATION line: a reproduced counterexample; 2: no answer."""
import sys, os, re, json, time, subprocess, hashlib, shutil, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VSX_REPO", "/repo"); SRC = REPO + "/src"
PID = sys.argv[1]; TIER = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1); ONLY = os.environ.get("VSX_ONLY"); NJ = int(os.environ.get("VSX_JOBS", "8"))
T0 = time.time(); HARD = 840.0 if TIER == "quick" else 3300.0
B = os.environ.get("VSX_BUILD", V + "/build"); OUT = f"{B}/out/{PID}.{os.getpid()}"; EV = V + "/evidence"
LIBSRC = ["ovxx/allocator.cpp", "ovxx/library.cpp", "ovxx/fftw/fft.cpp", "ovxx/parallel/copy_chain.cpp", "ovxx/mpi/communicator.cpp",
          "ovxx/mpi/group.cpp", "ovxx/mpi/service.cpp", "ovxx/signal/window.cpp", "vsip/support.cpp"]
CFG = REPO + "/_build/src" if os.path.exists(REPO + "/_build/src/ovxx/detail/config.hpp") else V + "/config"
INC = f"-I{CFG} -I{SRC} -I{REPO}/support -I{V}/engine -I{V}/model -I{V}/h -DOMPI_SKIP_MPICXX -I/usr/lib/x86_64-linux-gnu/openmpi/include -I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi".split()
BCF = "-O2 -std=gnu++14 -fno-vectorize -fno-slp-vectorize -ffp-contract=off -gline-tables-only -D_GLIBCXX_EXTERN_TEMPLATE=0 -emit-llvm -c -w".split()
NATF = "-O2 -std=gnu++14 -pthread -w".split()
ASANF = "-O1 -g -std=gnu++14 -pthread -w -fsanitize=address,undefined -fno-sanitize=vptr,alignment -fno-sanitize-recover=undefined -DVSX_ASAN".split()
LLVMLINK = "/usr/lib/llvm-18/bin/llvm-link"
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def die(msg): print("ERROR: " + msg); sys.exit(2)
def digest():
    h = hashlib.sha256()
    for root in (SRC, V + "/model", V + "/engine"):
        for d, ds, fs in os.walk(root):
            ds.sort()
            if d.endswith("/bin"): continue
            if d == V + "/engine": fs = ["vsx.h"]
            for f in sorted(fs):
                if f.endswith((".hpp", ".cpp", ".h", ".c", ".py")): p = d + "/" + f; h.update(p.encode()); h.update(open(p, "rb").read())
    h.update(open(CFG + "/ovxx/detail/config.hpp", "rb").read()); h.update(" ".join(INC + BCF + NATF + ASANF).encode())
    return h.hexdigest()[:16]
def fdigest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files: h.update(open(f, "rb").read())
    return h.hexdigest()[:12]
class Harness:
    def __init__(s, path):
        s.path = path; s.name = os.path.basename(path)[:-4]; s.props = []; s.entries = []; s.stubs = []; s.flags = []; s.lib = True; s.extra = []; s.asan = True
        s.bounds = []; s.assume = []
        for l in open(path):
            m = re.match(r"//\s*@(\w+)\s*(.*)", l)
            if not m: continue
            k, a = m.group(1), m.group(2).strip()
            if k == "property": s.props += a.split()
            elif k == "stub": s.stubs += a.split()
            elif k == "flags": s.flags += a.split()
            elif k == "src": s.extra += a.split()      # further /repo sources
            elif k == "bounds": s.bounds.append(a)
            elif k == "assume": s.assume.append(a)
            elif k == "noasan": s.asan = False
            elif k == "entry":
                w = a.split(); e = dict(name=w[0], params=[0], tier="quick", timeout=10000, maxpaths=10**9, budget=None, traces=2, prop=None, h=s, heavy=0)
                for x in w[1:]:
                    kk, vv = x.split("=")
                    if kk == "params":
                        ps = []
                        for part in vv.split(","):
                            if "-" in part: lo, hi = part.split("-"); ps += range(int(lo), int(hi) + 1)
                            else: ps.append(int(part))
                        e["params"] = ps
                    elif kk in ("timeout", "maxpaths", "traces", "heavy"): e[kk] = int(vv)
                    elif kk == "budget": e[kk] = float(vv)
                    else: e[kk] = vv
                s.entries.append(e)
def harnesses():
    r = [Harness(V + "/h/" + f) for f in sorted(os.listdir(V + "/h")) if f.endswith(".cpp")]
    for h in r:
        for e in h.entries:
            if e["prop"] is None: e["prop"] = h.props[0]
    return [h for h in r if any(e["prop"] == PID for e in h.entries)]
locks = {}; glock = threading.Lock()
def once(path, fn):
    with glock: l = locks.setdefault(path, threading.Lock())
    with l:
        if os.path.exists(path): return path
        tmp = f"{path}.{os.getpid()}.tmp"; r = fn(tmp)
        if r is not None and r.returncode: raise RuntimeError(r.stdout[-6000:])
        os.rename(tmp, path); return path
def main():
    os.makedirs(OUT, exist_ok=True); os.makedirs(EV, exist_ok=True)
    r = sh(["bash", V + "/engine/build.sh"])
    if r.returncode: die("engine build failed\n" + r.stdout[-3000:])
    VSX = V + "/engine/bin/vsx"
    dg = digest(); C = f"{B}/{dg}"; os.makedirs(C, exist_ok=True)
    # keep the cache small: drop other digests
    for d in os.listdir(B):
        if re.fullmatch(r"[0-9a-f]{16}", d) and d != dg and time.time() - os.path.getmtime(f"{B}/{d}") > 1800: shutil.rmtree(f"{B}/{d}", ignore_errors=True)
    os.utime(C)
    hs = harnesses()
    if not hs: die("no harness for " + PID)
    ex = ThreadPoolExecutor(NJ); 
    # ---- library objects
    def libbc(s):
        o = f"{C}/{s.replace('/', '_')}.bc"; return once(o, lambda t: sh(["clang++"] + BCF + INC + [f"{SRC}/{s}", "-o", t]))
    def modbc(f, extra=[]):
        p = f"{V}/model/{f}"; o = f"{C}/m_{f}.bc"
        if f.endswith(".c"): return once(o, lambda t: sh(["clang"] + "-O2 -fno-vectorize -fno-slp-vectorize -gline-tables-only -emit-llvm -c -w".split() + [f"-I{V}/engine", p, "-o", t]))
        return once(o, lambda t: sh(["clang++"] + BCF + INC + [p, "-o", t]))
    def natobj(src, fl, tag, cc="g++"):
        o = f"{C}/{tag}_{os.path.relpath(src, '/').replace('/', '_')}.o"; return once(o, lambda t: sh([cc] + [f for f in fl if cc == "g++" or not f.startswith("-std")] + INC + ["-c", src, "-o", t]))
    fl_bc = {s: ex.submit(libbc, s) for s in LIBSRC}
    fm_bc = {f: ex.submit(modbc, f) for f in ["rt.cpp", "mpi.c"] + sorted({s for h in hs for s in h.stubs})}
    def hbc(h):
        k = fdigest([h.path] + [V + "/h/" + f for f in sorted(os.listdir(V + "/h")) if f.endswith(".h")], " ".join(h.flags))
        return once(f"{C}/h_{h.name}_{k}.bc", lambda t: sh(["clang++"] + BCF + INC + h.flags + [h.path, "-o", t])), k
    fh = {h.name: ex.submit(hbc, h) for h in hs}
    fx = {(h.name, s): ex.submit(lambda s=s, h=h: once(f"{C}/x_{h.name}_{s.replace('/', '_')}.bc", lambda t: sh(["clang++"] + BCF + INC + h.flags + [f"{SRC}/{s}", "-o", t]))) for h in hs for s in h.extra}
    fnat = {}
    def nathobj(h, fl, tag):
        return once(f"{C}/{tag}_h_{h.name}_{fh[h.name].result()[1]}.o", lambda t: sh(["g++"] + fl + INC + h.flags + ["-c", h.path, "-o", t]))
    def submit_nat(fl, tag, pool):
        return [pool.submit(natobj, f"{SRC}/{s}", fl, tag) for s in LIBSRC + ["ovxx/chrono.cpp"]] + [pool.submit(natobj, f"{V}/model/native.cpp", fl, tag), pool.submit(natobj, f"{V}/model/mpi.c", fl, tag, "gcc")]
    fhn = {h.name: ex.submit(nathobj, h, NATF, "nat") for h in hs}
    fnat["nat"] = submit_nat(NATF, "nat", ex)
    def linkbc(h):
        k = fh[h.name].result()[1]; o = f"{C}/all_{h.name}_{k}.bc"
        return once(o, lambda t: sh([LLVMLINK, "-o", t, fh[h.name].result()[0]] + [fm_bc[s].result() for s in h.stubs + ["rt.cpp", "mpi.c"]] + [fx[(h.name, s)].result() for s in h.extra] + [f.result() for f in fl_bc.values()]))
    exelock = threading.Lock()
    def linknat(h, tag):
        k = fh[h.name].result()[1]; o = f"{C}/{tag}_{h.name}_{k}.exe"; fl = NATF if tag == "nat" else ASANF
        with exelock:
            if tag not in fnat: fnat[tag] = submit_nat(fl, tag, ThreadPoolExecutor(NJ))
        objs = [f.result() for f in fnat[tag]]
        ho = fhn[h.name].result() if tag == "nat" else nathobj(h, fl, tag)
        xs = [once(f"{C}/{tag}_x_{h.name}_{s.replace('/', '_')}.o", lambda t: sh(["g++"] + fl + INC + h.flags + ["-c", f"{SRC}/{s}", "-o", t])) for s in h.extra]
        return once(o, lambda t: sh(["g++"] + fl + ["-rdynamic", "-o", t, ho] + xs + objs + "-lfftw3f -lfftw3 -lopenblas -ldl -pthread".split()))
    try:
        fbc = {h.name: linkbc(h) for h in hs}
    except RuntimeError as e: die("the encoded sources do not compile:\n" + str(e))
    if os.environ.get("VSX_REPLAY"):
        f = json.load(open(os.environ["VSX_REPLAY"])); h = next(h for h in hs if any(e["name"] == f["entry"] for e in h.entries)); tag = f["replay"]["build"]
        exe = linknat(h, tag); vf = OUT + "/values"; open(vf, "w").write("".join(f"{k} {v}\n" for k, v in f["violation"]["inputs"].items()))
        print("entry", f["entry"], "param", f["param"], "inputs", f["violation"]["inputs"]); sys.stdout.flush()
        rc = subprocess.run([exe, f["entry"]], env=dict(os.environ, VSX_VALUES=vf, VSX_PARAM=str(f["param"]), ASAN_OPTIONS="detect_leaks=0", **f["replay"]["env"])).returncode
        print("exit status", rc, "(0: the property holds here; anything else: reproduced)"); sys.stdout.flush(); os._exit(0)
    # ---- jobs
    jobs = []
    for h in hs:
        for e in h.entries:
            if e["prop"] != PID or (ONLY and not re.search(ONLY, e["name"])): continue
            if e["tier"] == "thorough" and TIER != "thorough": continue
            for p in e["params"]: jobs.append((h, e, p))
    jobs.sort(key=lambda j: -j[1]["heavy"])
    left = HARD - (time.time() - T0) - 150
    per = max(30.0, min(left, left * NJ / max(1, len(jobs)) if len(jobs) > NJ * 4 else left * 0.8))
    def run(j):
        h, e, p = j; o = f"{OUT}/{e['name']}.{p}.json"
        rem = HARD - (time.time() - T0) - 120
        bud = min(rem, e["budget"] or (240 if TIER == "quick" else 1500))
        if bud < 3: return dict(status="not run: time budget", complete=False, entry=e["name"], param=p, paths=0, violations=[], inconclusive={"not run: time budget": 1})
        try: r = sh([VSX, fbc[h.name], "--entry", e["name"], "--param", str(p), "--out", o, "--timeout", str(e["timeout"] * (1 if TIER == "quick" else 4)), "--budget", str(bud), "--maxpaths", str(e["maxpaths"])], timeout=bud + 100)
        except subprocess.TimeoutExpired: return dict(status="timeout", complete=False, entry=e["name"], param=p, paths=0, violations=[], inconclusive={"executor timed out": 1})
        try: d = json.load(open(o))
        except Exception: return dict(status="executor failed: " + r.stdout[-300:], complete=False, entry=e["name"], param=p, paths=0, violations=[], inconclusive={"executor failed (%d)" % r.returncode: 1})
        d["_log"] = r.stdout[-500:]; return d
    def native(h, e, p, values, tag, env=None, obs=None, tmo=60):
        exe = linknat(h, tag); vf = f"{OUT}/v.{e['name']}.{p}.{threading.get_ident()}.{time.time_ns()}"
        open(vf, "w").write("".join(f"{k} {v}\n" for k, v in values.items()))
        en = dict(os.environ, VSX_VALUES=vf, VSX_PARAM=str(p), OPENBLAS_NUM_THREADS="1", ASAN_OPTIONS="detect_leaks=0:alloc_dealloc_mismatch=1:detect_stack_use_after_return=1", UBSAN_OPTIONS="print_stacktrace=0"); en.update(env or {})
        if obs: en["VSX_OBS"] = obs
        work = OUT + "/cwd"; os.makedirs(work, exist_ok=True)
        try: r = sh([exe, e["name"]], env=en, timeout=tmo, cwd=work, errors="replace"); return r.returncode, r.stdout
        except subprocess.TimeoutExpired: return 124, "timeout"
        finally:
            if os.path.exists(vf): os.remove(vf)
    def trace(a):
        h, e, p, k = a; o = f"{OUT}/c.{e['name']}.{p}.{k}.json"
        if HARD - (time.time() - T0) < 60: return ("skipped", None)
        try: r = sh([VSX, fbc[h.name], "--entry", e["name"], "--param", str(p), "--out", o, "--concrete", "--seed", str(SEED * 1000 + k), "--budget", "60"], timeout=120); d = json.load(open(o))
        except Exception: return ("skipped", "executor failed on a concrete run")
        if d["paths_ok"] != 1 or d["violations"]: return ("skipped", "assumption false" if d["infeasible"] else "violation" if d["violations"] else json.dumps(d["inconclusive"])[:200])
        of = o[:-5] + ".obs"; rc, outp = native(h, e, p, d["values"], "nat", obs=of)
        if rc in (66,): return ("mismatch", f"{e['name']}/{p}: native assumption false")
        no = open(of).read().split() if os.path.exists(of) else []
        eo = d["obs"]
        def eq(x, y):
            if x == "nan" or y == "nan": return x == y or True if y == x else False
            try: x = float(x); y = float(y)
            except ValueError: return x == y
            return x == y or abs(x - y) <= 1e-4 * max(1, abs(x), abs(y))
        if len(no) != len(eo) or not all(eq(a, b) for a, b in zip(eo, no)) or rc not in (0,):
            bad = next((i for i, (a, b) in enumerate(zip(eo, no)) if not eq(a, b)), min(len(no), len(eo)))
            return ("mismatch", f"{e['name']}/{p} seed {k}: rc={rc} engine {len(eo)} obs, native {len(no)}; first difference at {bad}: {eo[bad:bad+1]} vs {no[bad:bad+1]} {outp[-200:]}")
        return ("ok", dict(entry=e["name"], param=p, inputs=dict(list(d["values"].items())[:12]), observations=len(eo)))
    try: 
        with ThreadPoolExecutor(NJ) as px: results = list(px.map(run, jobs))
    except RuntimeError as ex2: die(str(ex2))
    # ---- violations: replay
    known = []
    kf = V + "/known_findings.jsonl"
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l and not l.startswith("#"):
                k = json.loads(l)
                if k.get("property") == PID and k.get("kind") == "known": known.append(k)
    confirmed, unconfirmed, knownhit = [], [], {}
    cand = [(h, e, p, v) for (h, e, p), d in zip(jobs, results) for v in d["violations"]]
    seen = {}; sel = []
    for c in cand:
        key = (c[1]["name"], c[3]["kind"], c[3]["msg"], c[3]["where"]); seen[key] = seen.get(key, 0) + 1
        if seen[key] <= 3: sel.append(c)
    def replay(c):
        h, e, p, v = c; tried = []
        if HARD - (time.time() - T0) < 45: return c, None, ["no time left"]
        if v["kind"] not in ("out-of-bounds", "use-after-free", "double-free", "bad-free"):
            seq = [("nat", {}), ("nat", {"MALLOC_PERTURB_": "165"}), ("asan", {})]
        else: seq = [("asan", {}), ("nat", {}), ("nat", {"MALLOC_PERTURB_": "165"})]
        for tag, env in seq:
            if tag == "asan" and not h.asan: continue
            try: rc, outp = native(h, e, p, v["inputs"], tag, env)
            except RuntimeError as er: tried.append(f"{tag}: build failed {str(er)[-200:]}"); continue
            tried.append(f"{tag}{env}: rc={rc}")
            if rc not in (0, 66, 3): return c, (tag, env, rc, outp[-1500:]), tried
        return c, None, tried
    sel = sel[:48]
    with ThreadPoolExecutor(4) as px: reps = list(px.map(replay, sel))
    RD = f"{EV}/replay/{PID}"; 
    if os.path.isdir(RD): shutil.rmtree(RD)
    n = 0
    for (h, e, p, v), rp, tried in reps:
        if rp is None: unconfirmed.append(dict(entry=e["name"], param=p, kind=v["kind"], msg=v["msg"], where=v["where"], tried=tried, inputs=v["inputs"])); continue
        k = next((k for k in known if k["entry"] == e["name"] and k["match"] in v["msg"] and (k.get("param") in (None, p))), None)
        if k: knownhit[k["what"]] = k; continue
        os.makedirs(RD, exist_ok=True); n += 1; f = f"{RD}/{e['name']}.{p}.{n}.json"
        json.dump(dict(property=PID, harness=h.path, entry=e["name"], param=p, violation=v, replay=dict(build=rp[0], env=rp[1], rc=rp[2], output=rp[3]),
                       how=f"python3 {V}/replay.py {f}"), open(f, "w"), indent=1)
        confirmed.append((f, e, p, v, rp))
    # ---- validation of the encoding on concrete traces
    tl = [] 
    if not confirmed:
        for h, e, p in jobs:
            for k in range(e["traces"] if TIER == "quick" else e["traces"] * 5): tl.append((h, e, p, k))
        import random
        rr = random.Random(SEED); cap = 160 if TIER == "quick" else 1500
        if len(tl) > cap: tl = rr.sample(tl, cap)
    try:
        with ThreadPoolExecutor(NJ) as px: tr = list(px.map(trace, tl))
    except RuntimeError as ex2: tr = []; print("NOTE: native build failed: " + str(ex2)[-1500:])
    ok = [t[1] for t in tr if t[0] == "ok"]; mism = [t[1] for t in tr if t[0] == "mismatch"]
    # ---- evidence
    S = lambda k: sum(d.get(k, 0) for d in results)
    inc = {}; covers = {}; msgs = {}; files = {}; funcs = set()
    for d in results:
        for a, b in d.get("inconclusive", {}).items(): inc[a] = inc.get(a, 0) + b
        for a, b in d.get("covers", {}).items(): covers[a] = covers.get(a, 0) + b
        for a, b in d.get("assert_msgs", {}).items(): msgs[a] = msgs.get(a, 0) + b
        for a, b in d.get("lines", {}).items():
            if "/src/" in a and "/verif/" not in a: a = a[a.index("/src/") + 5:]; files[a] = max(files.get(a, 0), b)
        for f in d.get("functions", []): funcs.add(f[f.index("/src/") + 5:] if "/src/" in f else f)
    vac = [f"{e['name']}/{p}" for (h, e, p), d in zip(jobs, results) if d.get("paths_ok", 0) == 0 and not d["violations"]]
    hm = {m for h in hs for m in re.findall(r'(?:CHECK|vsx_assert|REQ)\s*\([^;]*?"([^"]+)"\s*\)\s*;', open(h.path).read())}
    import_never = sorted(m for m in hm if m not in msgs)
    complete = all(d.get("complete") for d in results)
    samples = [dict(entry=d["entry"], param=d["param"], paths=d["paths"], complete=d.get("complete"), asserts=d.get("asserts", 0), queries=d.get("queries", 0)) for d in results if d.get("paths")][:10] + ok[:6]
    ev = dict(property=PID, tier=TIER, seed=SEED, level="model_checking", wall_s=round(time.time() - T0, 2), violations=len(confirmed),
      coverage=dict(states=S("paths_ok"), transitions=S("instrs"), traces_validated_against_impl=len(ok), samples=samples, exhaustive=bool(complete),
        meaning="states: symbolic paths (path conditions) run to their end; transitions: LLVM IR instructions interpreted on them; exhaustive: every feasible path of every instance inside the stated bounds was run and every query decided",
        instances=len(jobs), instances_complete=sum(1 for d in results if d.get("complete")), entries=sorted({e["name"] for h, e, p in jobs}), branches_decided=S("branches"),
        assertions_checked=S("asserts"), assertions_to_solver=S("asserts_solver"), assertions_folded=S("asserts_folded"), queries=dict(total=S("queries"), sat=S("sat"), unsat=S("unsat"), unknown=S("unknown")), solver_s=round(S("solver_s"), 2),
        assumption_infeasible_paths=S("infeasible"), inconclusive=inc, unexplored_prefixes=S("unexplored"), covers=covers, assertions_by_text=msgs, assertion_texts_not_reached=import_never,
        encoded_files=files, encoded_functions=sorted(funcs)[:400], encoded_function_count=len(funcs), bounds=[b for h in hs for b in h.bounds],
        vacuous_instances=vac, trace_mismatches=mism[:10], traces_skipped=sum(1 for t in tr if t[0] == "skipped"), unconfirmed_counterexamples=unconfirmed[:10], known_findings=sorted(knownhit), harnesses=[os.path.basename(h.path) for h in hs], source_digest=dg),
      assumptions=[a for h in hs for a in h.assume] + ["MPI is the contract model model/mpi.c; the heap never fails; symbolic floating-point inputs are integers in the stated ranges and arithmetic on them is exact or uninterpreted", "engine/vsx interprets LLVM 18 IR of clang -O2; the real build is g++: counterexamples and sampled traces are replayed on a g++ build"])
    tmp = f"{EV}/{PID}.json.{os.getpid()}"; json.dump(ev, open(tmp, "w"), indent=1); os.rename(tmp, f"{EV}/{PID}.json")
    shutil.rmtree(OUT, ignore_errors=True)
    print(f"{PID} {TIER}: {len(jobs)} instances ({ev['coverage']['instances_complete']} complete), {S('paths_ok')} paths, {S('asserts')} assertions ({S('asserts_solver')} to the solver), {S('queries')} queries, unknown {S('unknown')}, solver {S('solver_s'):.1f}s, traces ok {len(ok)}/{len(tl)}, wall {time.time()-T0:.1f}s")
    if inc: print("  inconclusive:", json.dumps(inc)[:1500])
    if vac: print("  vacuous:", vac[:20])
    if import_never: print("  asserts not reached:", import_never[:20])
    for m in mism[:5]: print("  TRACE MISMATCH:", m)
    for u in unconfirmed[:6]: print("  UNCONFIRMED:", {k: u[k] for k in ("entry", "param", "kind", "msg", "where", "tried")})
    if os.environ.get("VSX_VERBOSE"):
        for d in sorted(results, key=lambda d: -d.get("wall_s", 0))[:25]: print("   %-28s p%-3s %6.1fs paths %d q %d %s %s" % (d["entry"], d["param"], d.get("wall_s", 0), d["paths"], d.get("queries", 0), "complete" if d.get("complete") else "INCOMPLETE", d.get("inconclusive") or ""))
    for w, k in sorted(knownhit.items()): print(f"KNOWN-FINDING: property={PID} {w}")
    for f, e, p, v, rp in confirmed[:12]:
        print(f"  {e['name']}/{p}: {v['kind']}: {v['msg']} at {v['where']} (replayed: {rp[0]} rc={rp[2]})")
        print(f"VIOLATION property={PID} replay={f}")
    sys.stdout.flush(); os._exit(1 if confirmed else 0)
try: main()
except SystemExit: raise
except BaseException as e:
    import traceback; traceback.print_exc(); sys.stdout.flush(); os._exit(2)
