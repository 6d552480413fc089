#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] [--replay FILE]

Decides one property: regenerates every proof obligation of the functions under
contract from /repo's current source and discharges them; when an obligation
fails (or always, as labelled bounded stand-ins), runs the executable contracts
against the real code to find a concrete failing history.
"""
import sys, os, json, time, re, subprocess, shutil, multiprocessing as mp, traceback, tempfile
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
REPO = os.environ.get("VCG_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

def log(*a): print(*a, flush=True)

# ------------------------------------------------------------------ native drivers
GLIB = ["-I/usr/include/glib-2.0", "-I/usr/lib/x86_64-linux-gnu/glib-2.0/include"]
LIBS = ["liblibCacheSim.a", "libCacheSim/traceReader/libtraceReader.a", "libCacheSim/cache/admission/libadmissionCpp.a"]   # the last two hold what the library archive leaves out (samplers, adaptsize)
def build_lib(scratch):
    """the library, from /repo's current sources, with AddressSanitizer"""
    b = os.path.join(scratch, "libbuild")
    env = dict(os.environ, CC="clang", CXX="clang++", CFLAGS="-O1 -g1 -fsanitize=address", CXXFLAGS="-O1 -g1 -fsanitize=address", LC_ALL="C")
    r = subprocess.run(["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release", "-DENABLE_TESTS=OFF", "-DENABLE_GLCACHE=ON",
                        "-DENABLE_LRB=OFF", "-DOPT_SUPPORT_ZSTD_TRACE=ON"], env=env, capture_output=True, text=True)
    if r.returncode: return None, r.stdout[-2000:] + r.stderr[-2000:]
    r = subprocess.run(["ninja", "-C", b] + LIBS, env=env, capture_output=True, text=True)
    if r.returncode: return None, r.stdout[-3000:]
    return os.path.join(b, "liblibCacheSim.a"), ""

def build_driver(scratch, name, lib):
    src = os.path.join(ROOT, "rac", name + ".cpp"); out = os.path.join(scratch, name)
    wrap = os.path.join(ROOT, "rac", name + "_wrap.c"); obj = []       # C sources of the program itself (outside the library)
    if os.path.exists(wrap):
        obj = [out + "_wrap.o"]
        r = subprocess.run(["clang", "-std=gnu11", "-O1", "-g1", "-fsanitize=address", "-w", "-DNDEBUG", "-DOS_LINUX", "-DLOGLEVEL=7", "-DENABLE_GLCACHE=1", "-DSUPPORT_ZSTD_TRACE=1", "-DINCLUDE_PRIV=1", "-I" + REPO + "/libCacheSim", "-I" + REPO + "/libCacheSim/include",
                            "-I" + os.path.join(scratch, "libbuild")] + GLIB + ["-c", wrap, "-o", obj[0]], capture_output=True, text=True)
        if r.returncode: return None, r.stderr[:3000]
    cmd = ["clang++", "-std=c++17", "-O1", "-g1", "-fsanitize=address", "-w", "-DENABLE_GLCACHE=1", "-DSUPPORT_ZSTD_TRACE=1", "-DINCLUDE_PRIV=1", "-I" + REPO + "/libCacheSim", "-I" + REPO + "/libCacheSim/include",
           "-I" + os.path.join(scratch, "libbuild")] + GLIB + ["-DREPO_DIR=\"%s\"" % REPO, src] + obj + [os.path.join(scratch, "libbuild", l) for l in LIBS] + ["-o", out, "-lglib-2.0", "-lzstd", "-lxgboost", "-lm", "-ldl", "-lpthread"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: return None, r.stderr[:3000]
    return out, ""

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0")
def run_driver(exe, prop, sub, budget, out, seed, extra=()):
    cmd = [exe, "--prop", prop, "--out", out, "--seed", str(seed), "--budget", str(budget)] + (["--sub", sub] if sub else []) + list(extra)
    try: r = subprocess.run(cmd, capture_output=True, text=True, env=ENV, timeout=budget + 150, errors="replace", cwd=out)
    except subprocess.TimeoutExpired: return {"status": "timeout", "cmd": cmd}
    m = re.search(r"^FAIL prop=(\S+) file=(\S+) msg=(.*)$", r.stdout, re.M)
    if m: return {"status": "fail", "file": m.group(2), "msg": m.group(3), "cmd": cmd}
    m = re.search(r"^DONE prop=(\S+) cases=(\d+) sample=(.*)$", r.stdout, re.M)
    if m: return {"status": "ok", "cases": int(m.group(2)), "sample": m.group(3), "cmd": cmd}
    return {"status": "error", "out": (r.stdout + r.stderr)[-1500:], "cmd": cmd}

# ------------------------------------------------------------------ proof units
def run_unit(args):
    name, scratch = args; shard = None
    if "#" in name: name, sh = name.split("#"); shard = tuple(int(x) for x in sh.split("/"))
    from vcg import vcg, units, build
    u = units.UNITS[name]
    t = time.time()
    res = {"unit": name, "fn": u.fn, "engine": u.engine, "obligs": [], "undecided": None, "wall": 0, "trusted": [], "externals": [], "inlined": []}
    try:
        if u.engine == "cbmc":
            from vcg import cbmc
            cbmc.run(u, scratch, res)
        else:
            prog = vcg.Program([build.ll(f, scratch) for f in u.files])
            from vcg import core; core.EXTV[0] = 0; r = u.build(prog); cons, con, ghosts, ax = r[:4]; opts = dict(r[4]) if len(r) > 4 else {}
            assumed = opts.pop("assumed", [])
            ex = vcg.Exec(prog, cons, ghosts, axioms=ax, **opts)
            ex.set_private(); ex.shard = shard; ex.deadline = t + 500
            obs = ex.prove_lemmas(name, con(ex)) if u.engine == "lemma" else ex.verify(con)
            res["assumed"] = sorted(set(assumed) | set(getattr(ex, "assumed_labels", ())))
            for o in obs:
                res["obligs"].append({"label": o.label, "ok": o.status == "discharged", "t": o.t, "rl": o.rl, "backend": o.backend, "line": o.line, "detail": o.detail})
            res["trusted"] = sorted(c for c in ex.used_contracts if c in cons and cons[c] is not None and cons[c].trusted)
            res["used"] = sorted(c for c in ex.used_contracts)
            res["externals"] = sorted(ex.ext_used); res["inlined"] = sorted(ex.inlined)
    except vcg.Unsupported as e:
        res["undecided"] = "%s: %s" % (type(e).__name__, e)
    except RuntimeError as e:
        res["undecided"] = "extraction: %s" % str(e)[:1500]
    except Exception as e:
        res["undecided"] = "tool error: %s\n%s" % (e, traceback.format_exc()[-1200:])
    res["wall"] = time.time() - t
    return res

def unit_process(name, irdir, limit=600):
    """one unit in a process of its own (a solver crash costs only that unit)"""
    out = os.path.join(irdir, re.sub(r"\W+", "_", name) + ".unit.json")
    why = ""
    try:
        r = subprocess.run([sys.executable, os.path.abspath(__file__), "--unit", name, irdir, out], capture_output=True, text=True, timeout=limit)
        if os.path.exists(out): return json.load(open(out))
        why = "tool crashed (exit %d): %s" % (r.returncode, r.stderr[-400:])
    except subprocess.TimeoutExpired: why = "time limit of %d s" % limit
    return {"unit": name, "fn": name, "engine": "vcg", "obligs": [], "undecided": why, "wall": 0, "trusted": [], "externals": [], "inlined": []}

def tags(label):
    return re.findall(r"\[(C\d\d(?:,C\d\d)*)\]", label)

def belongs(label, prop):
    t = tags(label)
    return not t or any(prop in x.split(",") for x in t)

def resource_out(o):
    d = o.get("detail") or {}
    return d.get("result") == "unknown" and ("resource" in d.get("reason", "") or "canceled" in d.get("reason", "") or "timeout" in d.get("reason", ""))

# ------------------------------------------------------------------ main
def main():
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER") or "quick"; replay = None
    a = sys.argv[2:]
    while a:
        k = a.pop(0)
        if k == "--tier": tier = a.pop(0)
        elif k == "--replay": replay = a.pop(0)
    from vcg import props, units
    P = props.PROPS[prop]
    t0 = time.time()
    base = os.path.join(ROOT, "build"); os.makedirs(base, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=prop + ".", dir=base)
    repdir = os.path.join(ROOT, "replays"); os.makedirs(repdir, exist_ok=True)
    try:
        return run(prop, tier, replay, P, units, scratch, repdir, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def known_findings():
    p = os.path.join(ROOT, "known-findings.txt"); out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"): out.append(l)
    return out

def run(prop, tier, replay, P, units, scratch, repdir, t0):
    if replay: return do_replay(prop, P, scratch, replay)
    names = [n for n, u in units.UNITS.items() if prop in u.props]
    # native build in the background
    lib = {}
    need_lib = bool(P.get("rac"))
    from vcg import build, lists, core
    import threading
    def bl(): lib["lib"], lib["err"] = build_lib(scratch)
    th = threading.Thread(target=bl)
    if need_lib: th.start()
    # longest first
    names.sort(key=lambda n: -1 if n in P.get("slow", ()) else 0 if n.endswith("_get") or "expand" in n or n in P.get("slow", ()) else 1)
    irdir = os.path.join(scratch, "ir"); os.makedirs(irdir)
    files = sorted({f for n in names for f in units.UNITS[n].files if units.UNITS[n].engine != "cbmc"})
    comp_err = None
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as tp:
        for f, r in zip(files, tp.map(lambda f: trycompile(build, f, irdir), files)):
            if r: comp_err = "%s: %s" % (f, r)
    with ThreadPoolExecutor(8) as tp:
        jobs = [(n, n if units.UNITS[n].shards == 1 else "%s#%d/%d" % (n, i, units.UNITS[n].shards)) for n in names for i in range(units.UNITS[n].shards)]
        parts = list(tp.map(lambda j: (j[0], unit_process(j[1], irdir)), jobs))
    results = []
    for n in names:
        rs = [r for m, r in parts if m == n]; r = rs[0]
        for q in rs[1:]:
            r["obligs"] += q["obligs"]; r["wall"] += q["wall"]; r["undecided"] = r["undecided"] or q["undecided"]
            for k in ("trusted", "externals", "inlined"): r[k] = sorted(set(r[k]) | set(q[k]))
        results.append(r)
    obl = disch = 0; failed = []; undecided = []; secs = {}; byback = {}; vac = 0
    for r in results:
        if r["undecided"]: undecided.append((r["unit"], r["undecided"]))
        for o in r["obligs"]:
            if not belongs(o["label"], prop): continue
            obl += 1
            if o["ok"]:
                disch += 1; byback[o["backend"]] = byback.get(o["backend"], 0) + 1
            elif resource_out(o): undecided.append((r["unit"], "solver resource limit on: " + o["label"]))
            else: failed.append((r, o))
        secs[r["unit"]] = round(r["wall"], 2)
    if not names or (obl == 0 and not undecided): undecided.append(("-", "no obligations were generated"))
    # bounded drivers (stand-ins + search for a failing input)
    bounded = []; violation = None; known_lines = []
    if need_lib:
        th.join()
        if lib["lib"] is None: log("BUILD-ERROR: the library does not build:\n" + lib["err"]); undecided.append(("native build", lib["err"][-300:]))
        else:
            import concurrent.futures as cf
            exes = {}
            for d in {d[0] for d in P["rac"]}:
                exes[d], err = build_driver(scratch, d, lib["lib"])
                if exes[d] is None: undecided.append(("driver " + d, err[-600:]))
            jobs = []
            mult = 1 if not (failed or undecided) else 3
            for (d, sub, q, th_) in P["rac"]:
                if not exes.get(d): continue
                bud = (q * mult) if tier == "quick" else th_
                n = 4 if tier == "quick" else 8
                for k in range(n):
                    o = os.path.join(scratch, "%s.%s.%d" % (d, sub.replace(",", "_")[:40], k)); os.makedirs(o, exist_ok=True)
                    jobs.append((d, exes[d], prop, sub, bud, o, SEED * 1000 + k))
            with cf.ThreadPoolExecutor(8) as tp:
                rr = list(tp.map(lambda j: (j, run_driver(*j[1:])), jobs))
            for j, r in rr:
                if r["status"] == "fail":
                    if violation is None:
                        dst = os.path.join(repdir, "%s.%s.case" % (prop, j[0])); shutil.copy(r["file"], dst)
                        violation = (dst, r["msg"])
                elif r["status"] == "ok": bounded.append({"driver": j[0], "scope": j[3] or "all", "seed": j[6], "cases": r["cases"], "sample": r["sample"][:600]})
                else: undecided.append(("driver " + j[0], json.dumps(r)[-800:]))
    for f in P.get("extra", ()):           # property specific extra evidence
        f(locals())
    ok = True
    for l in known_findings():
        m = re.match(r"finding: property=(\S+) (.*)", l)
        if m and m.group(1) == prop: log("KNOWN-FINDING: property=%s %s" % (prop, m.group(2)))
    nviol = 0
    if failed:
        log("failed obligations (%d):" % len(failed))
        for r, o in failed[:25]: log("  %s: %s" % (r["unit"], o["label"]))
    for u, m in undecided: log("UNDECIDED: %s: %s" % (u, m[:400]))
    if failed or violation:
        ok = False; nviol = 1
        rep = os.path.join(repdir, prop + ".obligations.txt")
        if failed:
            with open(rep, "w") as f:
                f.write("property %s: %d proof obligations generated from /repo no longer hold\n\n" % (prop, len(failed)))
                for r, o in failed:
                    f.write("function %s\nobligation: %s\nsource line: %s\nback end: %s, resources %s\nsolver output: %s\n\n" % (r["unit"], o["label"], o["line"], o["backend"], o["rl"], json.dumps(o["detail"], default=str)[:3000]))
        if violation:
            if failed: 
                with open(violation[0], "a") as f: f.write("# failed obligations: " + "; ".join("%s: %s" % (r["unit"], o["label"]) for r, o in failed[:10]) + "\n")
            log("failing input: %s" % violation[1])
            log("VIOLATION property=%s replay=%s" % (prop, violation[0]))
        else:
            log("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rep))
    cov = {
        "obligations": obl, "discharged": disch,
        "checker_cmd": "python3-vt check.py %s --tier %s" % (prop, tier),
        "functions_under_contract": sorted(names),
        "by_back_end": byback,
        "solver_wall_s_per_function": secs,
        "inlined_without_contract": sorted({i for r in results for i in r["inlined"]}),
        "trusted_base": sorted({"assumed contract: " + c for r in results for c in r["trusted"]} | {"external: " + e for r in results for e in r["externals"]} | {"assumption: " + x for r in results for x in r.get("assumed", ())}) +
            ["clang 18 front end (C to LLVM IR, same preprocessor configuration as the build)", "vcg/ verification condition generator", "Z3 4.x (decides the obligations)", "finite-set sum/cardinality axioms in vcg/core.py"],
        "bounded_stand_ins": bounded,
        "bounded_cases": sum(b["cases"] for b in bounded),
        "undecided": ["%s: %s" % u for u in undecided],
        "failed": ["%s: %s" % (r["unit"], o["label"]) for r, o in failed][:50],
    }
    for k in P.get("notes", {}): cov[k] = P["notes"][k]
    ev = {"property": prop, "tier": tier, "seed": SEED, "level": P.get("level", "proof"), "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "assumptions": P.get("assumptions", []) , "violations": nviol}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    log("%s %s: %d functions, %d/%d obligations discharged, %d bounded cases, %.1f s%s" % (prop, tier, len(names), disch, obl, cov["bounded_cases"], time.time() - t0,
        "" if ok else " -- FAILED"))
    return 0 if ok else 1

def trycompile(build, f, d):
    try: build.ll(f, d); return None
    except Exception as e: return str(e)

def do_replay(prop, P, scratch, path):
    m = re.search(r"^# driver (\S+)", open(path).read(), re.M)
    if not m:
        log(open(path).read()); log("this replay names failed obligations; rerun check.py %s" % prop); return 1
    lib, err = build_lib(scratch)
    if lib is None: log(err); return 2
    exe, err = build_driver(scratch, m.group(1), lib)
    if exe is None: log(err); return 2
    r = subprocess.run([exe, "--prop", prop, "--replay", os.path.abspath(path)], env=ENV, cwd=scratch)
    return r.returncode

if __name__ == "__main__":
    if sys.argv[1] == "--unit":
        json.dump(run_unit((sys.argv[2], sys.argv[3])), open(sys.argv[4] + ".tmp", "w"), default=str)
        os.rename(sys.argv[4] + ".tmp", sys.argv[4]); sys.exit(0)
    sys.exit(main())
