#!/usr/bin/env python3
"""Runs the solver-based check of one property: check.py <ID> [--tier quick|thorough]."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
SRC = os.path.join(REPO, "distributed_vector_ole")
OUT = os.path.join(HERE, "out")
BUILD = os.path.join(HERE, "build")
CXX = "/usr/bin/clang++"
LINK = "/usr/lib/llvm-18/bin/llvm-link"
sys.path.insert(0, HERE)
import registry  # noqa: E402

COMMON = ["-std=c++17", "-w", "-fopenmp=libomp", "-gline-tables-only", "-Wno-everything"]
IR_FLAGS = ["-O2", "-fno-pic", "-fno-pie", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", 
            "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_NO_CPUID", "-DSX_ENGINE", "-emit-llvm", "-c", "-U_FORTIFY_SOURCE"]


QUICK_S, THOROUGH_S = 720, 6 * 3600  # the symbolic part ends this long after the start


def log(*a):
    print(*a, flush=True)


def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **kw)


class Fail(Exception):
    pass


def ensure_engine():
    symx = os.path.join(BUILD, "symx")
    h = hashlib.sha256()
    for f in sorted(os.listdir(os.path.join(HERE, "engine"))):
        h.update(open(os.path.join(HERE, "engine", f), "rb").read())
    stamp = os.path.join(BUILD, "stamp")
    if os.path.exists(symx) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return symx
    r = run([os.path.join(HERE, "engine", "build.sh"), BUILD])
    if r.returncode:
        raise Fail("engine build failed:\n" + r.stdout[-4000:])
    open(stamp, "w").write(h.hexdigest())
    return symx


def src_path(s):
    return os.path.join(SRC, s[5:]) if s.startswith("repo:") else os.path.join(HERE, "harness", s)


def includes(unit, native):
    inc = []
    for d in unit.get("native_stubs" if native else "stubs", ["common"]):
        inc += ["-isystem", os.path.join(HERE, "stubs", d)]
    inc += ["-I", REPO, "-I", os.path.join(HERE, "harness"), "-I", os.path.join(HERE, "engine"), "-isystem", "/usr/include/eigen3"]
    return inc


def compile_one(cmd):
    """Compiles one file; with SX_CACHE (development only) objects are reused when the preprocessed text is the same."""
    cache = os.environ.get("SX_CACHE")
    if not cache:
        return run(cmd)
    i = cmd.index("-o")
    out, rest = cmd[i + 1], cmd[:i] + cmd[i + 2:]
    pp = run(rest + ["-E", "-o", "-"])
    if pp.returncode:
        return pp
    key = hashlib.sha256((" ".join(c for c in rest if not c.startswith("/")) + pp.stdout).encode()).hexdigest()
    p = os.path.join(cache, key)
    if os.path.exists(p):
        shutil.copyfile(p, out)
        return pp
    r = run(cmd)
    if r.returncode == 0:
        os.makedirs(cache, exist_ok=True)
        shutil.copyfile(out, p + ".%d" % threading.get_ident())
        os.rename(p + ".%d" % threading.get_ident(), p)
    return r


def compile_unit(name, wd, native=None):
    """Compiles a unit to bitcode (native=None) or to a native program (native = list of extra flags)."""
    u = registry.UNITS[name]
    os.makedirs(wd, exist_ok=True)
    jobs = []
    objs = []
    nat = native is not None
    for i, ent in enumerate(u["src"]):
        s, fl = ent if isinstance(ent, tuple) else (ent, [])
        o = os.path.join(wd, "%d_%s.%s" % (i, os.path.basename(s).replace(".cpp", ""), "o" if nat else "bc"))
        base = COMMON + includes(u, nat) + ["-include", os.path.join(HERE, "harness", "prelude.h")] + u.get("flags", []) + fl
        if nat:
            base = base + ["-O1", "-rdynamic", "-fno-omit-frame-pointer", "-fPIC", "-c"] + native
            if u.get("native_flags"):
                base += u["native_flags"]
        else:
            base = base + IR_FLAGS + (u.get("ir_flags") or [])
            if s in u.get("noinline", []):
                base += ["-fno-inline"]
        jobs.append([CXX] + base + [src_path(s), "-o", o])
        objs.append(o)
    if nat:
        for s in ["sx_native.cpp", "kmp_native.cpp"]:
            o = os.path.join(wd, s.replace(".cpp", ".o"))
            jobs.append([CXX, "-std=c++17", "-w", "-O1", "-g1", "-fPIC", "-c", "-I", os.path.join(HERE, "engine"), os.path.join(HERE, "harness", s), "-o", o]
                        + [f for f in native if f.startswith("-fsanitize")] + (["-DSX_NO_SIG"] if any("sanitize" in f for f in native) else []))
            objs.append(o)
    with cf.ThreadPoolExecutor(8) as ex:
        for r, j in zip(ex.map(compile_one, jobs), jobs):
            if r.returncode:
                raise Fail("compilation failed: %s\n%s" % (" ".join(j), r.stdout[-3000:]))
    if nat:
        out = os.path.join(wd, "prog")
        r = run([CXX, "-rdynamic", "-o", out] + objs + [f for f in native if f.startswith("-fsanitize")] + ["-labsl_throw_delegate", "-labsl_raw_logging_internal", "-labsl_int128", "-labsl_bad_optional_access", "-labsl_bad_variant_access", "-labsl_strings", "-labsl_hash", "-labsl_raw_hash_set", "-labsl_city", "-labsl_low_level_hash", "-lntl", "-lgmp", "-lcrypto", "-lpthread", "-ldl"] + u.get("native_libs", []))
    else:
        out = os.path.join(wd, "unit.bc")
        r = run([LINK, "-o", out] + objs)
    if r.returncode:
        raise Fail("link failed:\n" + r.stdout[-3000:])
    return out


def clean(d):
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)


class Stop:
    """Shared by one check: when a violation is confirmed, or the time is up, everything that still runs is ended."""
    def __init__(self, deadline):
        self.deadline, self.event = deadline, threading.Event()

    def left(self):
        return self.deadline - time.time()


def symx_run(symx, bc, unit, ent, wd, tier, jobs, stop):
    clean(wd)
    secs = ent.get("time_thorough" if tier == "thorough" else "time", 300 if tier == "quick" else 3000)
    secs = int(min(secs, stop.left()))
    res = {"fn": ent["fn"], "unit": unit, "code": "skipped", "out": "", "wall": 0, "viol": [], "incon": [], "fns": set(), "reach": {}}
    if stop.event.is_set() or secs < 5:
        res["incon"].append("not started" if stop.event.is_set() else "time budget: not started")
        return res
    cmd = [symx, bc, "--entry=" + ent["fn"], "--out=" + wd, "--time=%d" % secs, "--jobs=%d" % jobs]
    ic = registry.UNITS[unit].get("intercept")
    if ic:
        cmd.append("--intercept=" + ",".join("%s:%s" % kv for kv in ic.items()))
    cmd += ent.get("args", [])
    cmd = ["/usr/bin/prlimit", "--as=%d" % (4 << 30)] + cmd
    t0 = time.time()
    outf = os.path.join(wd, "stdout")
    with open(outf, "w") as of:
        p = subprocess.Popen(cmd, stdout=of, stderr=subprocess.STDOUT, start_new_session=True)
        seen = None
        killed = None
        while True:
            try:
                code = p.wait(timeout=0.25)
                break
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            if seen is None and any(f.startswith("viol.") and f.endswith(".json") for f in os.listdir(wd)):
                seen = now
            if seen is not None and now - seen > 2:
                killed = "stopped at the first violation"
            elif stop.event.is_set():
                killed = "stopped: a violation is confirmed elsewhere"
            elif now - t0 > secs + 30:
                killed = "time budget (hard limit)"
            if killed:
                try:
                    os.killpg(p.pid, 9)
                except ProcessLookupError:
                    pass
                code = p.wait()
                break
        try:
            os.killpg(p.pid, 9)
        except (ProcessLookupError, PermissionError):
            pass
    outtxt = open(outf, errors="replace").read()
    res.update(code=code, out=outtxt[-2000:], wall=time.time() - t0)
    if killed:
        res["incon"].append(killed)
    for f in sorted(os.listdir(wd)):
        q = os.path.join(wd, f)
        if f.startswith("viol.") and f.endswith(".json"):
            try:
                res["viol"].append((json.load(open(q)), q))
            except Exception as e:  # truncated
                res["incon"].append("bad report: %s" % e)
        elif f.startswith("incon."):
            res["incon"].append(open(q).read().strip())
        elif f.startswith("fns."):
            res["fns"] |= set(open(q).read().split("\n"))
        elif f.startswith("reach."):
            try:
                res["reach"][f[6:]] = json.load(open(q))
            except Exception:
                res["reach"][f[6:]] = {}
        elif f == "summary.json":
            res["sum"] = json.load(open(q))
    if not killed and code not in (0, 1, 2):
        res["incon"].append("engine exit %s: %s" % (code, outtxt[-500:]))
    return res


def write_assign(v, path):
    with open(path, "w") as f:
        for k, x in v.get("inputs", {}).items():
            f.write("%s %s\n" % (k, x))
        for k, x in v.get("aes", {}).items():
            f.write("AES:%s %s\n" % (k, x))


_nlock = threading.Lock()
_ncache = {}


def native_prog(unit, flavour, wd):
    flags = {"plain": [], "asan": ["-fsanitize=address", "-g"], "tsan": ["-fsanitize=thread", "-g"], "ubsan": ["-fsanitize=undefined", "-fno-sanitize-recover=undefined"]}[flavour]
    with _nlock:
        k = (unit, flavour)
        if k not in _ncache:
            try:
                _ncache[k] = compile_unit(unit, os.path.join(wd, "native_%s_%s" % (unit, flavour)), native=flags)
            except Fail as e:
                _ncache[k] = e
        if isinstance(_ncache[k], Fail):
            raise _ncache[k]
        return _ncache[k]


ENVS = {"asan": {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:max_malloc_fill_size=1000000:malloc_fill_byte=190"},
        "tsan": {"TSAN_OPTIONS": "exitcode=66"}, "plain": {"MALLOC_PERTURB_": "165"}, "ubsan": {}}


def native_run(prog, flavour, fn, args, timeout=60):
    env = dict(os.environ)
    env.update(ENVS[flavour])
    try:
        p = subprocess.run(["/usr/bin/setarch", "-R", prog, fn] + args if flavour == "tsan" else [prog, fn] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, env=env)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace") + "\nTIMEOUT\n"


def replay(v, unit, fn, wd, prop):
    """Reproduces a counterexample on the real code.  Returns (ok, path, text)."""
    rd = os.path.join(OUT, "replay", prop)
    os.makedirs(rd, exist_ok=True)
    asg = os.path.join(rd, "%s_%s.inputs" % (unit, fn))
    write_assign(v, asg)
    order = {"memory": ["asan", "plain"], "race": ["tsan", "plain"]}.get(v["kind"], ["plain", "asan"])
    txt = ""
    for fl in order:
        try:
            prog = native_prog(unit, fl, wd)
        except Fail as e:
            txt += str(e)
            continue
        for attempt in range(8 if v["kind"] == "race" else 1):
            code, o = native_run(prog, fl, fn, ["--assign=" + asg], timeout=20 if v["kind"] == "hang" else 60)
            txt = "== native run (%s) of %s: exit %d\n%s\n" % (fl, fn, code, o[-6000:])
            bad = "VIOL" in o or "AddressSanitizer" in o or "ThreadSanitizer" in o or code == 124 or code < 0
            if bad:
                break
        if bad:
            p = os.path.join(rd, "%s_%s.txt" % (unit, fn))
            with open(p, "w") as f:
                f.write("property %s\nentry %s (unit %s)\nviolation: %s: %s\nwhere: %s\ninputs: %s\n" % (prop, fn, unit, v["kind"], v["label"], v["where"], asg))
                f.write("counterexample found by the solver, reproduced on the real code compiled natively (%s):\n%s" % (fl, txt))
            return True, p, txt
    return False, asg, txt


def never_reached(r, wd, prop):
    """A harness labels outcomes that must all be possible "<what> <k> of <n>".  When every path was explored and the
    solver found no input for one of them, none exists; the real code must not show it on random inputs either."""
    want, got = {}, {}
    for l in r["reach"]:
        m = re.match(r"(.*) (\d+) of (\d+)$", l)
        if m:
            want.setdefault((m.group(1), int(m.group(3))), set()).add(int(m.group(2)))
    for (what, n), have in want.items():
        miss = [k for k in range(n) if k not in have]
        if not miss:
            continue
        prog = native_prog(r["unit"], "plain", wd)
        runs = max(200, 20 * n)
        seen = {}
        with cf.ThreadPoolExecutor(8) as ex:
            for code, o in ex.map(lambda s: native_run(prog, "plain", r["fn"], ["--seed=%d" % s]), range(1, runs + 1)):
                for l in re.findall(r"^REACH (.*)$", o, re.M):
                    seen[l] = seen.get(l, 0) + 1
        hit = [k for k in miss if "%s %d of %d" % (what, k, n) in seen]
        if hit:
            r["incon"].append("the encoding excludes '%s %d of %d', the real code does not" % (what, hit[0], n))
            return None, None
        rd = os.path.join(OUT, "replay", prop)
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, "%s_%s.txt" % (r["unit"], r["fn"]))
        with open(p, "w") as f:
            f.write("property %s\nentry %s (unit %s)\nviolation: '%s k of %d' is impossible for k in %s: all paths were explored and the solver has no input for any of them\n"
                    % (prop, r["fn"], r["unit"], what, n, miss))
            f.write("the real code, run natively on %d pseudo-random inputs (seeds 1 to %d), shows:\n" % (runs, runs))
            for l, c in sorted(seen.items()):
                f.write("%6d  %s\n" % (c, l))
        return {"kind": "impossible", "label": "%s: %d of the %d outcomes cannot occur" % (what, len(miss), n), "where": r["fn"]}, p
    return None, None


def norm(o):
    ls = [l for l in o.split("\n") if re.match(r"(CHECK|OBS|REACH|ASSUME-FALSE|END|VIOL)", l)]
    ls = [("VIOL" if l.startswith("VIOL") else l) for l in ls]
    return sorted(ls)


def validate(symx, bc, unit, ent, wd, seeds, until):
    """Runs the same pseudo-random inputs through the encoding and the real code."""
    ok = late = 0
    bad = []
    fl = "plain"
    prog = native_prog(unit, fl, wd)
    ic = registry.UNITS[unit].get("intercept")
    for s in seeds:
        if time.time() > until:
            break
        cmd = [symx, bc, "--entry=" + ent["fn"], "--out=" + wd, "--concrete=%d" % s, "--time=120"]
        if ic:
            cmd.append("--intercept=" + ",".join("%s:%s" % kv for kv in ic.items()))
        try:
            r = run(cmd, timeout=150)
            e = r.stdout
        except subprocess.TimeoutExpired:
            late += 1
            continue
        code, n = native_run(prog, fl, ent["fn"], ["--seed=%d" % s], timeout=120)
        a, b = norm(e), norm(n)
        if "VIOL" in a and "VIOL" in b:
            bad.append(("both", s, n))
            continue
        if "ASSUME-FALSE" in a and "ASSUME-FALSE" in b:
            # stopped in the middle: how far the other thread got depends on the schedule
            ok += 1
        elif a == b and "END" in a:
            ok += 1
        else:
            bad.append(("native" if "VIOL" in b else "differ", s, "engine:\n%s\nnative (exit %d):\n%s" % (e[-1500:], code, n[-1500:])))
    return ok, bad


def main():
    if sys.argv[1] == "--setup":
        try:
            ensure_engine()
        except Fail as e:
            log("ERROR", e)
            sys.exit(2)
        log("engine ready")
        sys.exit(0)
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    only = None
    noval = False
    for a in sys.argv[2:]:
        if a.startswith("--tier="):
            tier = a[7:]
        elif a.startswith("--only="):
            only = a[7:]
        elif a == "--noval":
            noval = True
    t0 = time.time()
    wd = os.path.join(OUT, "%s_%s_%d" % (prop, tier, os.getpid()))
    clean(wd)
    code = 2
    try:
        code = check(prop, tier, seed, wd, only, t0, noval)
    except Fail as e:
        log("ERROR", e)
        code = 2
    finally:
        if not os.environ.get("SX_KEEP"):
            shutil.rmtree(wd, ignore_errors=True)
    sys.exit(code)


def check(prop, tier, seed, wd, only, t0, noval):
    spec = registry.CHECKS[prop]
    ents = [e for e in spec["entries"] if (tier == "thorough" or not e.get("thorough")) and (not only or e["fn"] == only)]
    symx = ensure_engine()
    units = sorted({e["unit"] for e in ents})
    bcs = {}
    with cf.ThreadPoolExecutor(len(units)) as ex:
        futs = {u: ex.submit(compile_unit, u, os.path.join(wd, "ir_" + u)) for u in units}
        nat = {u: ex.submit(native_prog, u, "plain", wd) for u in units} if not noval else {}
        for u, f in futs.items():
            bcs[u] = f.result()
        for u, f in nat.items():
            f.result()
    t_build = time.time() - t0
    pool = spec.get("pool", 4)
    jobs = spec.get("jobs", max(1, 8 // min(pool, len(ents))))
    known = load_known(prop)
    violations = []
    incon = []      # the check cannot answer
    partial = []    # explored in part only
    kf_hit = []
    stop = Stop(t0 + (QUICK_S if tier == "quick" else THOROUGH_S))
    lock = threading.Lock()

    def one(e):
        r = symx_run(symx, bcs[e["unit"]], e["unit"], e, os.path.join(wd, "run_%s_%s" % (e["unit"], e["fn"])), tier, jobs, stop)
        if stop.event.is_set() and not r["viol"]:
            return r
        s = r.get("sum", {})
        log("%-28s %-14s code=%s paths=%s checks=%s (rewrite %s, algebra %s, z3 %s) queries=%s solver=%.1fs wall=%.1fs%s" % (
            r["fn"], r["unit"], r["code"], s.get("paths"), s.get("checks"), s.get("by_rewrite"), s.get("by_algebra"), s.get("by_z3"), s.get("queries"),
            s.get("solver_us", 0) / 1e6, r["wall"], (" INCOMPLETE: " + r["incon"][0][:300]) if r["incon"] else ""))
        done = False
        for v, p in r["viol"]:
            ok, path, txt = replay(v, r["unit"], r["fn"], wd, prop)
            if ok:
                k = match_known(known, r["fn"], v)
                with lock:
                    if k:
                        kf_hit.append((k, r))
                    else:
                        violations.append((v, path))
                        stop.event.set()
                done = True
                break
            else:
                incon.append("%s: counterexample (%s: %s at %s) does not reproduce natively: %s" % (r["fn"], v["kind"], v["label"], v["where"][:200], txt[-800:]))
        if done:
            return r
        if r["incon"]:
            partial.append((r["fn"], r["incon"][0]))
        elif not r["viol"]:
            v, path = never_reached(r, wd, prop)
            if v:
                with lock:
                    violations.append((v, path))
                    stop.event.set()
                return r
            for l in e.get("reach", []):
                if l not in r["reach"]:
                    incon.append("%s: reachability witness '%s' was not reached (vacuous)" % (r["fn"], l))
        return r

    with cf.ThreadPoolExecutor(pool) as ex:
        results = list(ex.map(one, ents))
    t_symx = time.time() - t0 - t_build
    # An entry that ran out of time or met something the engine cannot encode was explored in part: that is reported, in
    # the evidence too.  When that is most of the check, there is no answer.
    lost = [e["fn"] for e, r in zip(ents, results) if r["incon"] and not r["viol"] and not all(l in r["reach"] for l in e.get("reach", []))]
    if not violations and len(lost) * 2 > len(ents):
        incon += ["%s: %s" % x for x in partial]
    validated = 0
    samples = []
    if not violations and not noval:
        nseeds = spec.get("seeds", 3 if tier == "quick" else 12)
        with cf.ThreadPoolExecutor(8) as ex:
            fs = []
            for e in ents:
                if e.get("novalidate") or any(e["fn"] == f for f, _ in partial):
                    continue
                fs.append((e, ex.submit(validate, symx, bcs[e["unit"]], e["unit"], e, wd, [seed * 1000 + i for i in range(e.get("seeds", nseeds))], stop.deadline + 30)))
            for e, f in fs:
                ok, bad = f.result()
                validated += ok
                for b in bad:
                    if isinstance(b, tuple) and b[0] in ("native", "both"):
                        rd = os.path.join(OUT, "replay", prop)
                        os.makedirs(rd, exist_ok=True)
                        p = os.path.join(rd, "%s_%s_trace.txt" % (e["unit"], e["fn"]))
                        open(p, "w").write("property %s entry %s: the real code fails on validation input seed %d\n%s\n" % (prop, e["fn"], b[1], b[2]))
                        v = {"kind": "trace", "label": "validation trace fails", "where": e["fn"]}
                        k = match_known(known, e["fn"], v)
                        if k:
                            continue
                        violations.append((v, p))
                    else:
                        incon.append("%s: encoding and real code disagree: %s" % (e["fn"], b if isinstance(b, str) else b[2]))
    tot = lambda k: sum(r.get("sum", {}).get(k, 0) for r in results)
    for r in results:
        for l, m in list(r["reach"].items())[:1]:
            samples.append({"entry": r["fn"], "unit": r["unit"], "reached": l, "witness": dict(list(m.get("inputs", {}).items())[:8]), "path_condition": m.get("path_condition", [])[:4]})
    fns = set()
    for r in results:
        fns |= r["fns"]
    dem = demangle(sorted(f for f in fns if f))
    rf = sorted({d for d in dem if "distributed_vector_ole::" in d.split("(")[0] or "hasher" in d.lower()})
    cov = {
        "states": tot("paths") + tot("branches"),
        "transitions": tot("instructions"),
        "traces_validated_against_impl": validated,
        "samples": samples[:8] or [{"note": "no path reached"}],
        "entries": [{"entry": r["fn"], "unit": r["unit"], "paths": r.get("sum", {}).get("paths"), "checks": r.get("sum", {}).get("checks"),
                     "decided_by": {k: r.get("sum", {}).get("by_" + k) for k in ("rewrite", "algebra", "z3")}, "queries": r.get("sum", {}).get("queries"),
                     "solver_s": round(r.get("sum", {}).get("solver_us", 0) / 1e6, 2), "wall_s": round(r["wall"], 2)} for r in results],
        "functions_encoded": rf[:150],
        "functions_encoded_count": len(rf),
        "paths": tot("paths"),
        "assertions_checked": tot("checks"),
        "assertions_by_rewriting": tot("by_rewrite"),
        "assertions_by_algebraic_normal_form": tot("by_algebra"),
        "assertions_by_z3": tot("by_z3"),
        "solver_queries": tot("queries"),
        "solver_unsat": tot("unsat"),
        "solver_sat": tot("sat"),
        "solver_seconds": round(tot("solver_us") / 1e6, 2),
        "bounds": spec.get("bounds_" + tier, spec.get("bounds", "")),
        "exhaustive": False,
        "explored_in_part": ["%s: %s" % x for x in partial],
        "inconclusive": incon[:5],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"), "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in {k["id"]: k for k, _ in kf_hit}.values():
        log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if violations:
        for v, p in violations:
            log("  %s: %s\n  at %s" % (v["kind"], v["label"], v["where"][:600]))
            log("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if incon:
        for i in incon[:6]:
            log("INCONCLUSIVE", i[:3000])
        return 2
    for f, w in partial:
        log("INCOMPLETE %s: %s" % (f, w[:1000]))
    log("time: build %.1fs, symbolic %.1fs, rest %.1fs" % (t_build, t_symx, time.time() - t0 - t_build - t_symx))
    log("OK %s: %d paths, %d assertions, %d solver queries, %d traces validated, %.1fs" % (prop, tot("paths"), tot("checks"), tot("queries"), validated, time.time() - t0))
    return 0


def demangle(names):
    if not names:
        return []
    base = [n.split(" ")[0] for n in names]
    p = subprocess.run(["c++filt"], input="\n".join(base), stdout=subprocess.PIPE, text=True)
    out = []
    for n, d in zip(names, p.stdout.split("\n")):
        d = re.sub(r"\[abi:[^\]]*\]", "", d)
        out.append(d + (" " + n.split(" ", 1)[1] if " " in n else ""))
    return out


def load_known(prop):
    p = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("known", []) if k["property"] == prop]


def match_known(known, fn, v):
    for k in known:
        if k["entry"] == fn and k["label"] in v["label"] and k.get("where", "") in v["where"]:
            return k
    return None


if __name__ == "__main__":
    main()
