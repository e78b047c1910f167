#!/usr/bin/env python3
"""Runs the solver-based check of one property against /repo's working tree.

  check.py <PROPERTY> [--tier quick|thorough] [--only HARNESS] [-v]

exit 0: held on everything explored; exit 1: VIOLATION line printed.
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, VERIF)
NCPU = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))

CLANG = "clang++"


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def sha(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        h.update(f.read())
    return h.hexdigest()


def build_engine():
    d = os.path.join(VERIF, "engine")
    key = hashlib.sha256("".join(sha(os.path.join(d, f)) for f in ("expr.h", "expr.cc", "solver.h", "solver.cc", "state.h", "main.cc", "build.sh")).encode()).hexdigest()
    stamp = os.path.join(BUILD, "engine.key")
    exe = os.path.join(BUILD, "symex")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe
    os.makedirs(BUILD, exist_ok=True)
    r = run([os.path.join(d, "build.sh"), BUILD])
    if r.returncode or not os.path.exists(exe):
        print(r.stdout)
        sys.exit("engine build failed")
    with open(stamp + str(os.getpid()), "w") as f:
        f.write(key)
    os.replace(stamp + str(os.getpid()), stamp)
    return exe


def incs(h):
    v = ["-I" + os.path.join(VERIF, "shim")]
    v += ["-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(VERIF, "engine")]
    v += ["-I" + REPO, "-I" + os.path.join(REPO, "iamf/include")]
    v += ["-isystem", "/usr/include/eigen3"]
    return v


ENGINE_FLAGS = ["-std=c++20", "-w", "-O1", "-g1", "-emit-llvm", "-c", "-fno-exceptions", "-fno-vectorize",
                "-fno-slp-vectorize", "-fno-threadsafe-statics", "-fno-unroll-loops", "-ffp-contract=off", "-fno-pic", "-fno-math-errno",
                "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DVERIF_ENGINE=1", "-DEIGEN_DONT_VECTORIZE",
                "-DEIGEN_NO_DEBUG", "-fno-builtin-memchr", "-Xclang", "-disable-lifetime-markers"]
NATIVE_FLAGS = ["-std=c++20", "-w", "-O0", "-g1", "-c", "-fno-exceptions", "-ffp-contract=off", "-fsanitize=address,undefined",
                "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr,function", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_NO_DEBUG"]


def compile_one(src, flags, ext, cachedir):
    """Compiles src; reuses an output only if the source, every header it
    included and the flags are byte-identical."""
    os.makedirs(cachedir, exist_ok=True)
    fkey = hashlib.sha256((src + "\0" + "\0".join(flags)).encode()).hexdigest()[:24]
    dep = os.path.join(cachedir, fkey + ".deps")
    def content_key(files):
        h = hashlib.sha256()
        for f in files:
            h.update(f.encode())
            try:
                h.update(sha(f).encode())
            except OSError:
                h.update(b"gone")
        return h.hexdigest()[:24]
    if os.path.exists(dep):
        files = open(dep).read().split("\n")
        out = os.path.join(cachedir, fkey + "-" + content_key(files) + ext)
        if os.path.exists(out):
            return out, None
    tmp = os.path.join(cachedir, "%s.%d.%d" % (fkey, os.getpid(), time.monotonic_ns()))
    r = run([CLANG] + flags + ["-MD", "-MF", tmp + ".d", src, "-o", tmp + ext])
    if r.returncode:
        return None, "compile of %s failed:\n%s" % (src, r.stdout[-4000:])
    txt = open(tmp + ".d").read().replace("\\\n", " ").split(":", 1)[1]
    files = sorted(set(f for f in txt.split() if not f.startswith("/usr/")))
    out = os.path.join(cachedir, fkey + "-" + content_key(files) + ext)
    os.replace(tmp + ext, out)
    with open(tmp + ".deps", "w") as f:
        f.write("\n".join(files))
    os.replace(tmp + ".deps", dep)
    os.unlink(tmp + ".d")
    return out, None


def resolve_src(s):
    if s.startswith("@"):  # a file of /verif
        return os.path.join(VERIF, s[1:])
    return os.path.join(REPO, s)


def hflags(h, native):
    f = list(NATIVE_FLAGS if native else ENGINE_FLAGS)
    if h.get("assertions", True):
        f.append("-D_GLIBCXX_ASSERTIONS")
    if h.get("fast_strcat", True):
        f.append("-DVERIF_FAST_STRCAT")
    if h.get("trap") and not native:
        f += ["-fsanitize=" + h["trap"], "-fsanitize-trap=all"]
    f += [x.replace("@VERIF", VERIF) for x in h.get("flags", [])]
    f += incs(h)
    return f


def defining_sources(h, symbols, have):
    """Sources of the repository which define the (mangled) symbols: code may
    have moved to a file the harness does not name."""
    flags = hflags(h, False)
    names = run(["c++filt"] + symbols).stdout.split("\n")
    texts = {}
    for d, _, files in os.walk(os.path.join(REPO, "iamf")):
        if "/tests" not in d:
            for f in files:
                if f.endswith(".cc"):
                    texts[os.path.join(d, f)] = None
    found = []
    for sym, name in zip(symbols, names):
        base = re.sub(r"\[abi:\w+\]", "", name.split("(")[0].split("<")[0].replace("iamf_tools::", "")).split(" ")[-1]
        pat = re.compile(r"\b" + r"\s*::\s*".join(re.escape(x) for x in base.split("::")) + r"\s*(<[^<>]*>)?\s*\(")
        tried = 0
        for f in sorted(texts):
            if f in have or f in found:
                continue
            if texts[f] is None:
                texts[f] = open(f, errors="replace").read()
            if not pat.search(texts[f]) or tried >= 12:
                continue
            tried += 1
            o, err = compile_one(f, flags, ".bc", os.path.join(BUILD, "cache"))
            if not err and sym in run(["llvm-nm-18", "--defined-only", "--extern-only", o]).stdout.split():
                found.append(f)
                break
    return found


def build_harness(h, pool, workdir, native):
    if native:  # With the sources found to be missing.
        extra = h["linked"].result() if "linked" in h else []
        return build_with(h, pool, workdir, True, extra)
    extra = []
    result = None, "not built"
    try:
        for _ in range(5):
            result = build_with(h, pool, workdir, False, extra)
            if result[1]:
                break
            undef = [l.split()[-1] for l in run(["llvm-nm-18", "-u", result[0]]).stdout.splitlines() if "iamf_tools" in l]
            undef = [u for u in undef if u.startswith("_ZN")]
            if not undef:
                break
            more = defining_sources(h, undef, [resolve_src(s) for s in h["repo"]] + extra)
            if not more:
                break
            extra = extra + more
    finally:
        if "linked" in h and not h["linked"].done():
            h["linked"].set_result(extra)
    return result


def build_with(h, pool, workdir, native, extra):
    flags = hflags(h, native)
    srcs = [os.path.join(VERIF, "harness", h["src"])] + [resolve_src(s) for s in h["repo"]] + extra
    srcs.append(os.path.join(VERIF, "engine", "native_rt.cc" if native else "rt.cc"))
    ext = ".o" if native else ".bc"
    futs = [pool.submit(compile_one, s, flags, ext, os.path.join(BUILD, "cache")) for s in srcs]
    outs = []
    for f in futs:
        o, err = f.result()
        if err:
            return None, err
        outs.append(o)
    name = h["name"]
    if native:
        exe = os.path.join(workdir, name + ".native")
        r = run([CLANG, "-fsanitize=address,undefined", "-no-pie", "-Wl,--unresolved-symbols=ignore-all"] + outs + ["-o", exe])
        if r.returncode:
            return None, "native link failed:\n" + r.stdout[-3000:]
        return exe, None
    bc = os.path.join(workdir, name + ".bc")
    r = run(["llvm-link-18", "-o", bc + ".tmp"] + outs)
    if r.returncode:
        return None, "llvm-link failed:\n" + r.stdout[-3000:]
    r = run(["opt-18", "-passes=internalize,globaldce,lowerswitch", "-internalize-public-api-list=harness_main", bc + ".tmp", "-o", bc])
    if r.returncode:
        return None, "opt failed:\n" + r.stdout[-3000:]
    os.unlink(bc + ".tmp")
    return bc, None


def run_native(exe, case, values, timeout=60, env=None):
    vf = values
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=2000"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    if env:
        e.update(env)
    try:
        r = subprocess.run([exe, str(case), vf], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=e)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as t:
        return -999, (t.stdout or b"").decode(errors="replace") if isinstance(t.stdout, bytes) else (t.stdout or ""), "timeout"


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--case", type=int)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-native", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    from checks import CHECKS
    chk = CHECKS[a.property]
    tier = a.tier
    workdir = os.path.join(BUILD, "work", "%s-%d" % (a.property, os.getpid()))
    os.makedirs(workdir, exist_ok=True)
    replaydir = os.path.join(VERIF, "replays", a.property)
    harnesses = [dict(h) for h in chk["harnesses"] if not a.only or h["name"] == a.only]
    if tier == "thorough":
        for h in harnesses:
            h.update(h.get("thorough", {}))
    else:
        harnesses = [h for h in harnesses if not h.get("thorough_only")]
    for h in harnesses:
        h["linked"] = cf.Future()
    pool = cf.ThreadPoolExecutor(NCPU)
    outer = cf.ThreadPoolExecutor(64)
    eng = outer.submit(build_engine)
    builds = {h["name"]: outer.submit(build_harness, h, pool, workdir, False) for h in harnesses}
    jobs = []
    errors = []
    engine = eng.result()
    budget = chk.get("budget", {}).get(tier, 240 if tier == "quick" else 3000)
    runner = cf.ThreadPoolExecutor(NCPU)

    def run_case(h, bc, case):
        out = os.path.join(workdir, "%s.%d.json" % (h["name"], case))
        left = max(20, budget - (time.time() - t0))
        tl = min(left, h.get("time", budget))
        cmd = [engine, "--case=%d" % case, "--time=%d" % tl, "--out=" + out]
        if h.get("real"):
            cmd.append("--real")
        cmd += ["--query-ms=%d" % h.get("query_ms", 60000)]
        if h.get("merge") is not None:
            cmd.append("--merge=%d" % h["merge"])
        cmd += h.get("engine", [])
        if a.v:
            cmd.append("-v")
        cmd.append(bc)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=None if a.v else subprocess.PIPE, text=True, errors="replace")
        if r.returncode or not os.path.exists(out):
            return {"error": "engine exited %d: %s" % (r.returncode, (r.stderr or "")[-1500:])}
        return json.load(open(out))

    natives = {}
    for h in harnesses:
        bc, err = builds[h["name"]].result()
        if err:
            errors.append(err)
            continue
        cases = range(h.get("cases", 1)) if not isinstance(h.get("cases", 1), (list, tuple)) else h["cases"]
        if a.case is not None:
            cases = [a.case]
        for c in cases:
            jobs.append((h, c, runner.submit(run_case, h, bc, c)))
    if not a.no_native:
        for h in harnesses:
            natives[h["name"]] = outer.submit(build_harness, h, pool, workdir, True)
    tot = dict(paths=0, forks=0, instructions=0, asserts=0, assert_queries=0, branches=0, mem_checks=0, alloc_reps=0, assume_end=0, queries=0,
               q_sat=0, q_unsat=0, q_unknown=0, q_cached=0, q_model=0, solver_s=0.0)
    functions, incomplete, reach, samples_ev = set(), {}, {}, []
    candidates = []
    per = []
    validated = mismatched = 0
    mismatches = []
    solver_max = 0.0
    sample_jobs = []
    for h, c, f in jobs:
        r = f.result()
        if "error" in r:
            errors.append("%s case %d: %s" % (h["name"], c, r["error"]))
            continue
        for k in tot:
            tot[k] += r.get(k, 0)
        solver_max = max(solver_max, r.get("solver_max_s", 0))
        functions.update(r["functions"])
        for k, v in r["incomplete"].items():
            incomplete["%s/%d: %s" % (h["name"], c, k)] = v
        for k, v in r["reach"].items():
            kk = h["name"] + ":" + k
            reach[kk] = reach.get(kk, 0) + v
        per.append({"harness": h["name"], "case": c, "paths": r["paths"], "queries": r["queries"], "solver_s": round(r["solver_s"], 3), "wall_s": round(r["wall_s"], 2), "violations": len(r["violations"])})
        for v in r["violations"]:
            candidates.append((h, c, v))
        for i, s in enumerate(r["samples"]):
            sample_jobs.append((h, c, i, s))
    if a.v:
        for p in sorted(per, key=lambda p: -p["wall_s"])[:12]:
            print(p)

    def native_of(h):
        f = natives.get(h["name"])
        if f is None:
            f = natives[h["name"]] = outer.submit(build_harness, h, pool, workdir, True)
        exe, err = f.result()
        if err and err not in errors:
            errors.append(err)
        return exe

    confirmed, unconfirmed = [], []
    for n, (h, c, v) in enumerate(candidates):
        exe = native_of(h)
        vf = os.path.join(workdir, "cand%d.values" % n)
        with open(vf, "w") as f:
            f.write(v["values"])
        ok = False
        log = ""
        if exe:
            envs = [{}]
            if v["uninit"]:
                for b in (0, 255, 1, 128):
                    envs.append({"ASAN_OPTIONS": "detect_leaks=0:max_malloc_fill_size=100000000:malloc_fill_byte=%d" % b})
            for e in envs:
                rc, so, se = run_native(exe, c, vf, timeout=20 if v["kind"] == "steps" else 60, env=e)
                log += "rc=%s\n%s\n%s\n" % (rc, so[-2000:], se[-4000:])
                if rc not in (0, 77, 78):
                    ok = True
                    break
        if ok:
            confirmed.append((h, c, v, log))
        else:
            unconfirmed.append((h, c, v, log))
    if not a.no_native:
        def val(job):
            h, c, i, s = job
            exe = native_of(h)
            if not exe:
                return job, None
            vf = os.path.join(workdir, "%s.%d.s%d" % (h["name"], c, i))
            with open(vf, "w") as f:
                f.write(s["values"])
            return job, run_native(exe, c, vf)
        lim = 64 if tier == "quick" else 256
        step = max(1, len(sample_jobs) // lim)
        for job, res in runner.map(val, sample_jobs[::step]):
            h, c, i, s = job
            if res is None:
                continue
            rc, so, se = res
            if rc == 0:
                obs = [l.split()[1] for l in so.splitlines() if l.startswith("OBS ")]
                if obs == s["obs"] or h.get("real"):
                    validated += 1
                else:
                    mismatched += 1
                    mismatches.append("%s/%d sample %d observations differ: %s vs %s" % (h["name"], c, i, s["obs"][:8], obs[:8]))
            elif rc in (77, 78):
                mismatched += 1
                mismatches.append("%s/%d sample %d: %s" % (h["name"], c, i, so[-200:]))
            else:
                v = {"kind": "native", "msg": "native execution of a solver-generated input fails (rc=%s)" % rc, "where": (se + so)[-300:], "stack": "", "values": s["values"], "uninit": False}
                confirmed.append((h, c, v, "rc=%s\n%s\n%s" % (rc, so[-2000:], se[-4000:])))
            if len(samples_ev) < 6:
                samples_ev.append({"harness": h["name"], "case": c, "inputs": s["values"][:400], "observed": s["obs"][:16]})
    # Required witnesses.
    missing = []
    for h in harnesses:
        if a.case is not None:
            break
        for w in h.get("reach", []):
            if h["name"] + ":" + w not in reach:
                missing.append(h["name"] + ":" + w)
    known = load_known()
    viol = []
    knownhit = []
    for h, c, v, log in confirmed:
        hit = None
        for k in known:
            if k["property"] == a.property and k.get("harness") == h["name"] and k.get("kind") == v["kind"] and k.get("match") and k["match"] in (v["msg"] + " @ " + v["where"]):
                hit = k
        if hit:
            knownhit.append(hit["summary"])
            continue
        viol.append((h, c, v, log))
    for s in sorted(set(knownhit)):
        print("KNOWN-FINDING: property=%s %s" % (a.property, s))
    vio_ev = []
    if viol:
        os.makedirs(replaydir, exist_ok=True)
    for n, (h, c, v, log) in enumerate(viol):
        base = os.path.join(replaydir, "%s-%d-%d" % (h["name"], c, n))
        with open(base + ".values", "w") as f:
            f.write(v["values"])
        with open(base + ".txt", "w") as f:
            f.write("property: %s\nharness: %s case %d\nkind: %s\nmessage: %s\nwhere: %s\nsymbolic stack:\n%s\nnative replay:\n%s\nrerun: %s/check.py %s --replay is: build harness natively and run '<exe> %d %s'\n" % (
                a.property, h["name"], c, v["kind"], v["msg"], v["where"], v["stack"], log, VERIF, a.property, c, base + ".values"))
        print("VIOLATION property=%s replay=%s" % (a.property, base + ".txt"))
        print("  %s: %s (%s)" % (v["kind"], v["msg"], v["where"].replace("\n", " ")[:300]))
        vio_ev.append({"harness": h["name"], "case": c, "kind": v["kind"], "message": v["msg"], "replay": base + ".txt"})
    wall = time.time() - t0
    ev = {
        "property": a.property, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": tot["paths"] + tot["forks"], "transitions": tot["branches"] + tot["asserts"],
            "traces_validated_against_impl": validated, "samples": samples_ev or [{"note": "no sample"}],
            "exploration_complete": not incomplete and not errors,
            "paths": tot["paths"], "instructions_executed_symbolically": tot["instructions"],
            "assertions_checked": tot["asserts"], "assertions_decided_by_solver": tot["assert_queries"],
            "memory_accesses_checked": tot["mem_checks"],
            "allocation_sizes_reduced_to_a_representative": tot["alloc_reps"],
            "solver": {"queries": tot["queries"], "sat": tot["q_sat"], "unsat": tot["q_unsat"], "unknown": tot["q_unknown"],
                       "answered_from_cache": tot["q_cached"], "answered_by_model": tot["q_model"],
                       "seconds": round(tot["solver_s"], 3), "max_query_seconds": round(solver_max, 3)},
            "functions_encoded": sorted(f for f in functions if "iamf_tools" in f)[:400],
            "functions_encoded_total": len(functions),
            "bounds": chk.get("bounds", "") if tier == "quick" else chk.get("bounds_thorough", chk.get("bounds", "")),
            "outside_bounds": chk.get("outside", ""),
            "incomplete": incomplete, "witnesses_reached": reach, "witnesses_missing": missing,
            "cases": per, "unreproduced_candidates": [{"harness": h["name"], "case": c, "kind": v["kind"], "message": v["msg"], "where": v["where"]} for h, c, v, l in unconfirmed],
            "trace_mismatches": mismatches[:10], "errors": errors,
        },
        "assumptions": chk.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(viol),
    }
    if vio_ev:
        ev["coverage"]["violations"] = vio_ev
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not a.only and a.case is None:
        with open(os.path.join(VERIF, "evidence", a.property + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    shutil.rmtree(workdir, ignore_errors=True)
    print("%s %s: %d cases, %d paths, %d queries (%.1fs solver), %d asserts, %d traces validated, %s, %.1fs" % (
        a.property, tier, len(per), tot["paths"], tot["queries"], tot["solver_s"], tot["asserts"], validated,
        "complete" if not incomplete else "INCOMPLETE", wall))
    for k, v in list(incomplete.items())[:12]:
        print("  incomplete:", k, v)
    for m in missing:
        print("  missing witness:", m)
    for m in mismatches[:5]:
        print("  trace mismatch:", m)
    for h, c, v, l in unconfirmed[:6]:
        print("  not reproduced natively: %s/%d %s %s %s" % (h["name"], c, v["kind"], v["msg"], v["where"]))
        if a.v:
            print(v["values"], v["stack"], l[-1500:])
    if viol:
        sys.exit(1)
    if errors:
        for e in errors[:5]:
            print("ERROR", e)
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
