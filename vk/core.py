"""Check driver: compiles /repo's current sources with a harness to LLVM IR, runs the symbolic
engine on it, replays counterexamples natively, and writes the evidence file."""
import json, os, re, shutil, subprocess, sys, time, hashlib, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KSE_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ENGINE = os.path.join(BUILD, "kse")
CXX_IR = "/usr/bin/clang++-18"
CXX_NATIVE = "/usr/bin/clang++-18"
NCPU = min(8, os.cpu_count() or 1)
# incomplete type sizes etc. are identical between the two compilers (same ABI, same libstdc++)
IR_FLAGS = ["-std=gnu++23", "-D__cpp_concepts=202002L", "-Wno-builtin-macro-redefined", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
            "-D_GNU_SOURCE", "-DKSE_SYMBOLIC=1", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-strict-aliasing",
            "-gline-tables-only", "-emit-llvm", "-c", "-w"]
NAT_FLAGS = ["-std=gnu++23", "-D__cpp_concepts=202002L", "-Wno-builtin-macro-redefined", "-D_GNU_SOURCE", "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-w"]


class CheckError(Exception):
    pass


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)


def ensure_engine():
    if not os.path.exists(ENGINE) or not os.path.exists(os.path.join(BUILD, "runtime.bc")):
        r = sh(["bash", os.path.join(VERIF, "setup.sh")], timeout=1500)
        if r.returncode:
            raise CheckError("setup failed: " + r.stdout + r.stderr)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.work = os.path.join(BUILD, "work", "%s-%d" % (pid, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.bc = {}
        self.nat = {}

    def path(self, n):
        return os.path.join(self.work, n)


def incs(job):
    r = []
    for d in job.get("shim", []):
        r += ["-I" + os.path.join(VERIF, "shim", d)]
    r += ["-I" + os.path.join(VERIF, "rt"), "-I" + os.path.join(VERIF, "harness"), "-I" + REPO]
    for d in job.get("inc", []):
        r += ["-I" + os.path.join(REPO, d)]
    for f in job.get("include", []):
        r += ["-include", os.path.join(VERIF, f)]
    return r + job.get("flags", [])


def src_paths(job):
    return [os.path.join(VERIF, "harness", job["harness"])] + ([os.path.join(VERIF, "rt", "ksched.cpp")] if job.get("threads") else []) + [os.path.join(VERIF, s) for s in job.get("vsrcs", [])] + [os.path.join(REPO, s) for s in job.get("srcs", [])]


# clang's thread instrumentation turns atomics (and, for the memory model, plain accesses) into calls
# to the hooks in rt/ksched.cpp; the code under test and the harness get it, the runtime does not
def thread_flags(job, s, native=False):
    m = job.get("threads")
    if not m or os.path.realpath(s).startswith(os.path.join(VERIF, "rt")) or "/model/" in s:
        return []
    return ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-mllvm", "-tsan-instrument-memory-accesses=%d" % (native or m == "weak"), "-mllvm", "-tsan-instrument-memintrinsics=%d" % (native or m == "weak")]


def key_of(job):
    return hashlib.sha1(json.dumps([job.get("threads"), job["harness"], job.get("srcs"), job.get("vsrcs"), job.get("shim"), job.get("include"), job.get("flags"), job.get("irflags"), job.get("inc")]).encode()).hexdigest()[:10]


def compile_ir(ctx, job, pool):
    """returns a future producing the path of the linked bitcode"""
    k = key_of(job)
    if k in ctx.bc:
        return ctx.bc[k]
    outs, futs = [], []
    for i, s in enumerate(src_paths(job)):
        o = ctx.path("%s.%d.bc" % (k, i))
        outs.append(o)
        futs.append(pool.submit(sh, [CXX_IR] + IR_FLAGS + thread_flags(job, s) + job.get("irflags", []) + incs(job) + [s, "-o", o]))

    def fin():
        for f in futs:
            r = f.result()
            if r.returncode:
                raise CheckError("compilation to IR failed:\n" + r.stderr[-3000:])
        out = ctx.path(k + ".bc")
        r = sh(["/usr/bin/llvm-link-18"] + outs + [os.path.join(BUILD, "runtime.bc"), "-o", out])
        if r.returncode:
            raise CheckError("llvm-link failed:\n" + r.stderr[-2000:])
        return out
    ctx.bc[k] = fin
    return fin


def compile_native(ctx, job):
    k = key_of(job)
    if k in ctx.nat:
        return ctx.nat[k]
    outs, ps = [], []
    srcs = src_paths(job) + [os.path.join(VERIF, "rt", "native.cpp")]
    for i, s in enumerate(srcs):
        o = ctx.path("%s.n%d.o" % (k, i))
        outs.append(o)
        ps.append(subprocess.Popen([CXX_NATIVE] + [f for f in NAT_FLAGS if not (job.get("threads") and f.startswith("-fsanitize"))] + thread_flags(job, s, True) + job.get("natflags", []) + incs(job) + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    for p in ps:
        e = p.communicate()[1]
        if p.returncode:
            raise CheckError("native compilation failed:\n" + e[-3000:])
    exe = ctx.path(k + ".replay")
    r = sh([CXX_NATIVE] + ([] if job.get("threads") else ["-fsanitize=address"]) + outs + ["-o", exe] + job.get("natlibs", []))
    if r.returncode:
        raise CheckError("native link failed:\n" + r.stderr[-3000:])
    ctx.nat[k] = exe
    return exe


def run_engine(ctx, job, name, bc, params, jobs, seconds):
    out = ctx.path(name + ".json")
    cmd = [ENGINE, bc, "-o", out, "-j", str(jobs), "--repo", REPO.rstrip("/") + "/", "--max-seconds", str(seconds), "--max-viol", str(job.get("max_viol", 1)),
           "--solver-timeout", str(job.get("solver_timeout", 120)), "--max-steps", str(job.get("max_steps", 20000000))]
    for k, v in params.items():
        cmd += ["-p", "%s=%d" % (k, v)]
    t = time.time()
    r = sh(cmd, timeout=seconds + 400)
    if r.returncode not in (0, 1, 2) or not os.path.exists(out):
        raise CheckError("engine failed on %s (%d): %s" % (name, r.returncode, (r.stderr or "")[-2000:]))
    files = [out]
    if os.path.exists(out + ".kids"):
        files += [l.strip() for l in open(out + ".kids") if l.strip()]
    tot = None
    for f in files:
        if not os.path.exists(f):
            raise CheckError("engine worker result missing: " + f)
        d = json.load(open(f))
        if tot is None:
            tot = d
            continue
        for k2, v in d.items():
            if isinstance(v, dict):
                for a, b in v.items():
                    tot[k2][a] = tot[k2].get(a, 0) + b
            elif k2 == "funcs":
                tot[k2] = sorted(set(tot[k2]) | set(v))
            elif isinstance(v, list):
                tot[k2] += v
            elif k2 != "wall_s":
                tot[k2] += v
    tot["wall_s"] = time.time() - t
    seen, vs = set(), []
    for v in tot["violations"]:
        if (v["kind"], v["msg"]) not in seen:
            seen.add((v["kind"], v["msg"]))
            vs.append(v)
    tot["violations"] = vs
    return tot


def write_tape(path, tape, params):
    with open(path, "w") as f:
        for k, v in params.items():
            f.write("@%s 64 %d\n" % (k, v & 0xffffffffffffffff))
        for n, w, v in tape:
            f.write("%s %d %d\n" % (n.replace(" ", "_"), w, v))


def replay_many(ctx, exe, tapes):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=16:detect_stack_use_after_return=0:handle_abort=0:abort_on_error=0:exitcode=99")
    res = []
    CH = 25
    for i in range(0, len(tapes), CH):
        ch = tapes[i:i + CH]
        r = subprocess.run([exe] + ch + (["/nonexistent"] if len(ch) == 1 else []), capture_output=True, text=True, timeout=900, env=env, errors="replace")
        cur = None
        for line in r.stdout.split("\n"):
            if line.startswith("TAPE "):
                cur = {"tape": line[5:], "lines": []}
            elif line.startswith("EXIT ") and cur:
                cur["exit"] = int(line[5:])
                if cur["tape"] != "/nonexistent":
                    res.append(cur)
            elif cur:
                cur["lines"].append(line)
        ctx.last_stderr = r.stderr
    return res


def load_known():
    f = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("{"):
                out.append(json.loads(l))
    return out


def main(checks):
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = sys.argv[3] if len(sys.argv) > 3 else None
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    try:
        rc = run_check(checks[pid], ctx, only, t0)
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (pid, e))
        rc = 2
    except Exception as e:  # noqa
        import traceback
        traceback.print_exc()
        rc = 2
    finally:
        if not os.environ.get("KSE_KEEP"):
            shutil.rmtree(ctx.work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def run_check(spec, ctx, only, t0):
    ensure_engine()
    if callable(spec.get("custom")):
        return spec["custom"](spec, ctx)
    jobs = []
    for j in spec["jobs"]:
        if only and j["name"] != only:
            continue
        if j.get("tier", "both") == "thorough" and ctx.tier != "thorough":
            continue
        if j.get("tier") == "quick" and ctx.tier == "thorough":
            continue
        plist = j.get("params_thorough") if ctx.tier == "thorough" and "params_thorough" in j else j.get("params", [{}])
        for i, p in enumerate(plist):
            jobs.append((j, "%s%s" % (j["name"], "-%d" % i if len(plist) > 1 else ""), p))
    known = [k for k in load_known() if k.get("property") == ctx.pid and k.get("status") != "fixed"]
    pool = cf.ThreadPoolExecutor(NCPU)
    fins = {}
    for j, n, p in jobs:
        fins[n] = compile_ir(ctx, j, pool)
    bcs = {}
    for j, n, p in jobs:
        k = key_of(j)
        if k not in bcs:
            bcs[k] = fins[n]()
    results, errors, viols = {}, [], []
    # heavy jobs get all the cores one after another; light jobs (par=1) run side by side
    light = [x for x in jobs if x[0].get("par", NCPU) == 1]
    heavy = [x for x in jobs if x[0].get("par", NCPU) != 1]

    def one(x):
        j, n, p = x
        secs = j.get("seconds_thorough", 3000) if ctx.tier == "thorough" else max(20, min(j.get("seconds", 300), int(740 - (time.time() - t0))))   # a quick run ends in time whatever it meets
        return n, run_engine(ctx, j, n, bcs[key_of(j)], p, j.get("par", NCPU), secs)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for n, r in ex.map(one, light):
            results[n] = r
    for x in heavy:
        n, r = one(x)
        results[n] = r
        if r["violations"] and not known:
            break
    validated, samples, mism = 0, [], []
    for j, n, p in jobs:
        if n not in results:
            continue
        r = results[n]
        for w, c in r["incomplete"].items():
            errors.append("%s: incomplete: %s (x%d)" % (n, w, c))
        if not r["violations"]:
            for lab in j.get("reach", []):
                if not r["reach"].get(lab) and not p.get("noreach"):
                    errors.append("%s: vacuous: label '%s' was never reached" % (n, lab))
            if r["paths"] == 0:
                errors.append(n + ": no complete path")
        for v in r["violations"]:
            viols.append((j, n, p, v))
        for t in r["tapes"][:2]:
            samples.append({"job": n, "inputs": [[a, c] for a, b, c in t["tape"]][:60], "observed": t["out"][:20]})
        if j.get("validate", True) and not r["violations"] and r["tapes"]:
            maxv = j.get("validate_n", 25)
            exe = compile_native(ctx, j)
            tp = []
            for i, t in enumerate(r["tapes"][:maxv]):
                f = ctx.path("%s.v%d.tape" % (n, i))
                write_tape(f, t["tape"], p)
                tp.append(f)
            for f, t, rr in zip(tp, r["tapes"], replay_many(ctx, exe, tp)):
                exp = "KSE-OUT" + "".join(" %d" % x for x in t["out"])
                if rr["exit"] == 0 and exp in [l.rstrip() for l in rr["lines"]]:
                    validated += 1
                else:
                    if os.environ.get("KSE_KEEP"):
                        print("MISMATCH", f, rr, exp, ctx.last_stderr[-1500:])
                    mism.append("%s: native replay of a passing path disagrees (exit %s, %s)" % (n, rr["exit"], " ".join(rr["lines"])[:300]))
    rc = 0
    confirmed = []
    for j, n, p, v in viols:
        kf = None
        for k in known:
            if re.search(k["match"], v["msg"]) and (not k.get("job") or k["job"] == j["name"]):
                kf = k
        rd = os.path.join(VERIF, "replays", ctx.pid)
        os.makedirs(rd, exist_ok=True)
        base = os.path.join(rd, n + "-" + hashlib.sha1((v["kind"] + v["msg"]).encode()).hexdigest()[:8])
        write_tape(base + ".tape", v["tape"], p)
        how = "not replayed natively: " + str(j.get("noreplay"))
        ok = True
        if not j.get("noreplay"):
            exe = compile_native(ctx, j)
            rr = replay_many(ctx, exe, [base + ".tape"])
            r0 = rr[0] if rr else {"exit": -1, "lines": []}
            ok = r0["exit"] not in (0, 5, 6, 9)
            how = "native replay (ASan build): exit %s %s\n%s" % (r0["exit"], " ".join(r0["lines"]), ctx.last_stderr[-3000:])
            exe2 = os.path.join(rd, key_of(j) + ".replay")
            shutil.copy(exe, exe2)
        with open(base + ".txt", "w") as f:
            f.write("property %s, job %s, params %s\n%s: %s\n%s\ninputs:\n%s\n\n%s\n" % (ctx.pid, n, p, v["kind"], v["msg"], v["stack"], "\n".join("  %s = %d (0x%x)" % (a, c, c) for a, b, c in v["tape"]), how))
        if not ok:
            errors.append("%s: counterexample did not reproduce natively: %s: %s (see %s)" % (n, v["kind"], v["msg"], base + ".txt"))
            continue
        if kf:
            print("KNOWN-FINDING: property=%s %s" % (ctx.pid, kf["what"]))
            confirmed.append(("known", v["msg"]))
            continue
        print("VIOLATION property=%s replay=%s" % (ctx.pid, base + ".txt"))
        print("  %s: %s" % (v["kind"], v["msg"]))
        print("\n".join("  " + l for l in v["stack"].split("\n")[:6]))
        confirmed.append(("new", v["msg"]))
        rc = 1
    tot = lambda k: sum(r[k] for r in results.values())
    funcs = sorted({f for r in results.values() for f in r["funcs"]})
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": spec.get("level", "model_checking"),
          "coverage": {"states": tot("paths"), "transitions": tot("forks"), "traces_validated_against_impl": validated, "samples": samples[:8],
                       "states_meaning": "complete symbolic execution paths, each standing for all inputs satisfying its path condition", "transitions_meaning": "symbolic branch decisions taken both ways",
                       "instructions_executed": tot("instrs"), "assertions_checked": tot("asserts_checked"), "assertions_decided_symbolically": tot("asserts_symbolic"),
                       "solver_queries": tot("queries"), "z3_calls": tot("z3_calls"), "query_cache_hits": tot("cache_hits"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"), "solver_s": round(tot("solver_s"), 2),
                       "functions_encoded": funcs, "bounds": {n: {"params": p, "bound": j.get("bound", "")} for j, n, p in jobs},
                       "jobs": {n: {"paths": r["paths"], "killed": r["killed"], "wall_s": round(r["wall_s"], 1), "reach": r["reach"], "assertions": r["asserts"]} for n, r in results.items()},
                       "exhaustive_within_bound": not errors},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": sum(1 for c in confirmed if c[0] == "new")}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", ctx.pid + ".json"), "w"), indent=1)
    if rc == 1:
        return 1
    errors += mism
    if errors:
        for e in errors[:20]:
            print("CHECK-ERROR property=%s %s" % (ctx.pid, e))
        return 2
    print("OK property=%s paths=%d z3=%d solver_s=%.1f validated=%d wall=%.1fs" % (ctx.pid, tot("paths"), tot("z3_calls"), tot("solver_s"), validated, time.time() - t0))
    return 0
