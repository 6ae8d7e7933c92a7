#!/usr/bin/env python3
"""Driver of the runtime monitors.

  run.py check <ID> [--tier quick|thorough] [--seed N]   decide one property on /repo's working tree
  run.py replay <FILE>                                   run again what a VIOLATION line points to
  run.py list

Exit status of check: 0 held on everything explored, 1 violation (VIOLATION line), 2 inconclusive or
error of the check (build failure, harness failure, timeout)."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = os.path.join(REPO, "include")
LIB = os.path.join(INC, "pandaresampler", "pandaresampler.cc")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "output")
EVID = os.path.join(VERIF, "evidence")
HARN = os.path.join(VERIF, "harness")

sys.path.insert(0, VERIF)

SAN = "-g -fno-omit-frame-pointer -fno-sanitize-recover=all"
VARIANTS = {
    # name: (compiler, flags for library and harness)
    "gcc":      ("g++", "-O2"),
    "release":  ("g++", "-O3"),
    "clang":    ("clang++", "-O2"),
    "ndebug":   ("clang++", "-O2 -DNDEBUG"),
    "casan":    ("clang++", "-O1 -fsanitize=address,undefined -fno-sanitize=vptr,function " + SAN),
    "cubsan":   ("clang++", "-O1 -fsanitize=undefined,float-cast-overflow,local-bounds -fno-sanitize=vptr,function " + SAN),
    "hubsan":   ("clang++", "-O2 -fsanitize=signed-integer-overflow,pointer-overflow " + SAN),
    "gasan":    ("g++", "-O1 -fsanitize=address " + SAN),
    "casanonly":("clang++", "-O1 -fsanitize=address " + SAN),
    "msan":     ("clang++", "-O1 -fsanitize=memory -fsanitize-memory-track-origins=1 " + SAN),
    "tsan":     ("clang++", "-O1 -fsanitize=thread " + SAN),
    "g0":       ("g++", "-O0"),
    "gdebug":   ("g++", "-O1 -D_GLIBCXX_DEBUG -D_GLIBCXX_DEBUG_PEDANTIC"),
    "cov":      ("g++", "-O1 -fsanitize-coverage=trace-pc"),
    "sse41":    ("clang++", "-O2 -msse4.1"),
    "avx2":     ("g++", "-O3 -mavx2 -mfma"),
    "avx512":   ("clang++", "-O2 -mavx512f -mavx512vl -mavx512dq -mavx512bw -mfma"),
    "small":    ("g++", "-Os"),
    "portable": ("clang++", "-O2 -U__SSE__"),
    "neon":     ("g++", "-O2 -U__SSE__ -D__ARM_NEON -I" + os.path.join(HARN, "neon")),
}
NEEDS_CPU = {"sse41": ["sse4_1"], "avx2": ["avx2", "fma"], "avx512": ["avx512f", "avx512vl", "avx512dq", "avx512bw", "fma"]}
def cpu_has(variant):
    try:
        have = set(re.search(r"^flags\s*:(.*)$", open("/proc/cpuinfo").read(), re.M).group(1).split())
    except (OSError, AttributeError):
        have = set()
    return set(NEEDS_CPU.get(variant, [])) <= have
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:strict_init_order=1:allocator_may_return_null=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "MSAN_OPTIONS": "exitcode=77:abort_on_error=0",
    "TSAN_OPTIONS": "exitcode=77:halt_on_error=1:history_size=4",
}

from checks import CHECKS   # noqa: E402

def log(*a):
    print(*a, flush=True)

class CheckError(Exception):
    pass

# ---------------------------------------------------------------- building
_src_hash = None
def src_hash():
    global _src_hash
    if _src_hash is None:
        h = hashlib.sha256()
        for base in (INC, HARN, os.path.join(REPO, "filter-design")):
            for d, dirs, files in os.walk(base):
                dirs.sort()
                for f in sorted(files):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, base).encode())
                    h.update(open(p, "rb").read())
        _src_hash = h.hexdigest()
    return _src_hash

_locks, _guard = {}, threading.Lock()
def lock_for(k):
    with _guard:
        return _locks.setdefault(k, threading.Lock())

def cmd_output(cmd, what, cwd=None):
    p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=cwd, errors="replace")
    if p.returncode != 0:
        raise CheckError("build failed (%s): %s\n%s" % (what, cmd, p.stdout[-4000:]))
    return p.stdout

def cached(name, make):
    """build file `name` in the cache with make(tmp_path); keyed by all sources"""
    d = os.path.join(BUILD, src_hash()[:20])
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, name)
    with lock_for(path):
        if not os.path.exists(path):
            fd, tmp = tempfile.mkstemp(dir=d, prefix="tmp_", suffix=os.path.splitext(name)[1])
            os.close(fd)
            try:
                make(tmp)
                os.replace(tmp, path)
            finally:
                if os.path.exists(tmp):
                    os.unlink(tmp)
    return path

_pool = ThreadPoolExecutor(8)
def lib_obj(variant):
    cxx, fl = VARIANTS[variant]
    def mk(t):
        cmd_output("%s %s -std=c++11 -I%s -c %s -o %s" % (cxx, fl, INC, LIB, t), "library, " + variant)
    return cached("lib_%s.o" % variant, mk)

def harness_obj(variant, src, extra=""):
    cxx, fl = VARIANTS[variant]
    def mk(t):
        cmd_output("%s %s %s -std=c++17 -I%s -I%s -c %s -o %s" % (cxx, fl, extra, INC, HARN, os.path.join(HARN, src), t), src + ", " + variant)
    tag = hashlib.sha256(extra.encode()).hexdigest()[:6] if extra else ""
    return cached("%s_%s%s.o" % (src.replace(".", "_"), variant, tag), mk)

def program(variant, src, extra="", ldflags="", lib=True):
    cxx, fl = VARIANTS[variant]
    ho = _pool.submit(harness_obj, variant, src, extra)
    lo = _pool.submit(lib_obj, variant) if lib else None
    objs = [ho.result()] + ([lo.result()] if lo else [])
    tag = hashlib.sha256((extra + ldflags).encode()).hexdigest()[:6]
    def mk(t):
        cmd_output("%s %s %s -o %s -lpthread %s && chmod 755 %s" % (cxx, fl, " ".join(objs), t, ldflags, t), "link " + src + ", " + variant)
    return cached("%s_%s_%s.exe" % (src.replace(".", "_"), variant, tag), mk)

def prune():
    """keep the build cache small"""
    try:
        ds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD)), key=os.path.getmtime)
        for d in ds[:-6]:
            if os.path.basename(d) != src_hash()[:20] and os.path.dirname(d) == BUILD:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass

# ---------------------------------------------------------------- running
class Result:
    def __init__(self):
        self.viol, self.samples, self.adds, self.maxs, self.evals, self.hashes = [], [], {}, {}, 0, set()
        self.errors = []
        self.hung = False
        self.lock = threading.Lock()

def classify(rc, stderr):
    """kind of abnormal end, or None if it is not attributable to the code under test"""
    m = re.search(r"ERROR: (\w+Sanitizer): ([\w-]+)", stderr) or re.search(r"WARNING: (\w+Sanitizer): ([\w -]+?)( \(pid|\n)", stderr)
    if m:
        return m.group(1) + " " + m.group(2)
    m = re.search(r"runtime error: (.*)", stderr)
    if m:
        return "UndefinedBehaviorSanitizer " + m.group(1)[:120]
    m = re.search(r"Assertion [`'](.*)' failed", stderr)
    if m:
        return "assertion " + m.group(1)[:120]
    if "terminate called" in stderr or "double free" in stderr or "corruption" in stderr or "free(): invalid" in stderr or "stack smashing" in stderr:
        return "abort: " + stderr.strip().splitlines()[0][:120]
    if "Error: attempt to" in stderr:
        return "libstdc++ debug mode: " + re.search(r"Error: (.*)", stderr).group(1)[:120]
    if rc == 77:
        return "sanitizer report"
    if rc < 0 and -rc in (4, 5, 6, 7, 8, 11, 31):
        return "signal %d" % -rc
    return None

def run_program(exe, args, env, timeout, wrapper=None, crumb=None, stall=None):
    """ends with status None after `timeout` seconds, or if the breadcrumb of the monitor did not change for `stall` seconds"""
    e = dict(os.environ); e.update(SAN_ENV); e.update(env or {})
    p = subprocess.Popen((wrapper or []) + [exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, stdin=subprocess.DEVNULL, start_new_session=True)
    t0 = moved = time.time()
    last = None
    while True:
        try:
            so, se = p.communicate(timeout=3)
            return p.returncode, so.decode(errors="replace"), se.decode(errors="replace")
        except subprocess.TimeoutExpired:
            now = time.time()
            if stall:
                try:
                    c = open(crumb, "rb").read(600)
                except OSError:
                    c = None
                if c != last: last, moved = c, now
            if now - t0 < timeout and not (stall and now - moved > stall):
                continue
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        so, se = p.communicate()
        return None, so.decode(errors="replace"), se.decode(errors="replace")

def run_job(cid, job, shard, tier, seed, res, tmpdir, only=None):
    exe = job["_exe"]
    rep = os.path.join(tmpdir, "rep_%s_%d" % (job["name"], shard))
    args = ["seed=%d" % seed, "tier=%s" % tier, "report=%s" % rep, "variant=%s" % job["variant"]]
    n = job.get("shards", 1)
    if only is not None and only >= 0:
        args.append("only=%d" % only)
    else:
        args.append("shard=%d/%d" % (shard, n))
    args += job.get("args", [])
    args.append("dump=" + tmpdir)
    timeout = job.get("timeout", 700 if tier == "quick" else 6 * 3600)
    stall = 150 if tier == "quick" else 1200
    if res.hung: return        # one confirmed hang is enough
    for attempt in (1, 2):
        rc, so, se = run_program(exe, args, job.get("env"), timeout, job.get("wrapper"), rep + ".crumb", stall)
        crumb = "?"
        try:
            crumb = open(rep + ".crumb", "rb").read().split(b"\0")[0].decode(errors="replace")
        except OSError:
            pass
        done, lines = False, []
        try:
            lines = open(rep, errors="replace").read().splitlines()
        except OSError:
            pass
        done = bool(lines) and lines[-1] == "DONE"
        if rc is None:
            if res.hung: return
            if attempt == 1:
                continue
            res.hung = True
        if rc is not None and (rc != 0 or not done) and classify(rc, se) is None and attempt == 1 and rc != 3:
            continue     # killed (memory) or similar: once more
        break
    ctx = crumb.split("|")
    idx = -1
    if len(ctx) > 1:
        try: idx = int(ctx[1])
        except ValueError: pass
    with res.lock:
        for l in lines:
            f = l.split("\t")
            if f[0] == "V" and len(f) >= 4:
                res.viol.append({"key": f[1], "index": int(f[2]), "message": f[3], "job": job["name"], "shard": shard})
            elif f[0] == "S": res.samples.append(l[2:])
            elif f[0] == "A": res.adds[f[1]] = res.adds.get(f[1], 0) + float(f[2])
            elif f[0] == "M": res.maxs[f[1]] = max(res.maxs.get(f[1], float("-inf")), float(f[2]))
            elif f[0] == "E": res.evals += int(f[1])
        if rc is None:
            res.viol.append({"key": "hang:" + ctx[0], "index": idx, "message": "no progress for %d s, twice; last case: %s" % (stall, crumb), "job": job["name"], "shard": shard})
        elif rc != 0 or not done:
            k = classify(rc, se)
            if k is None:
                res.errors.append("job %s shard %d ended with status %s at '%s': %s" % (job["name"], shard, rc, crumb, (se or so)[-1500:]))
            else:
                loc = re.search(r"(/[\w/.+-]*(?:pandaresampler|hiir|harness)[\w/.+-]*:\d+)", se)
                res.viol.append({"key": "crash:" + ctx[0] + ":" + re.sub(r"0x[0-9a-f]+|\d{5,}", "N", k), "index": idx, "job": job["name"], "shard": shard,
                                 "message": "%s during '%s'%s" % (k, crumb, " at " + loc.group(1) if loc else ""), "stderr": se[-3000:]})
        try:
            b = open(rep + ".hash", "rb").read()
            import array
            a = array.array("Q"); a.frombytes(b[:len(b) // 8 * 8]); res.hashes.update(a)
        except OSError:
            pass

def known_findings():
    ks = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                ks[(m.group(1), m.group(2))] = m.group(3)
    return ks

def check(cid, tier, seed, only_job=None, only=None, write=True):
    t0 = time.time()
    spec = CHECKS[cid]
    jobs = [dict(j) for j in spec["jobs"] if tier == "thorough" or not j.get("thorough_only")]
    for i, j in enumerate(jobs):
        j.setdefault("variant", "clang"); j.setdefault("src", cid.lower() + ".cc")
        j.setdefault("name", "%s-%s%s" % (j["src"].replace(".cc", ""), j["variant"], "".join("-" + a.split("=")[-1] for a in j.get("args", []) if a.startswith("mode="))))
    jobs = [j for j in jobs if cpu_has(j["variant"])]
    if only_job:
        sel = [j for j in jobs if j["name"] == only_job]
        jobs = jobs if any(j.get("after") for j in sel) else sel
    res = Result()
    tmpdir = tempfile.mkdtemp(prefix="verif_%s_" % cid)
    err = None
    try:
        if spec.get("script"):
            import importlib
            importlib.import_module(spec["script"]).run(sys.modules[__name__], cid, tier, seed, res, tmpdir)
        runner = ThreadPoolExecutor(8)
        def do(j):
            j["_exe"] = program(j["variant"], j["src"], j.get("cflags", ""), j.get("ldflags", ""), j.get("lib", True))
            n = 1 if only is not None and only >= 0 else j.get("shards", 1)
            return [runner.submit(run_job, cid, j, s, tier, seed, res, tmpdir, only) for s in range(n)]
        for after in (False, True):      # "after" jobs work on what the others recorded
            now = [j for j in jobs if bool(j.get("after")) == after]
            if err or not now: continue
            with ThreadPoolExecutor(len(now)) as bp:
                fs = [(j, bp.submit(do, j)) for j in now]
                for j, f in fs:
                    try:
                        for r in f.result(): r.result()
                    except CheckError as e:
                        if j["variant"] in spec.get("optional_builds", []): res.adds["skipped_builds"] = res.adds.get("skipped_builds", 0) + 1
                        else: err = err or str(e)
        runner.shutdown()
        if spec.get("post") and not err and not only_job:
            import importlib
            importlib.import_module("checks").__dict__[spec["post"]](sys.modules[__name__], cid, tier, seed, res, tmpdir, jobs)
    except CheckError as e:
        err = str(e)
    finally:
        shutil.rmtree(tmpdir, ignore_errors=True)
    prune()
    if err:
        res.errors.append(err)
    known = known_findings()
    seen, new, kf = set(), [], []
    for v in res.viol:
        if (v["key"], v["job"]) in seen: continue
        seen.add((v["key"], v["job"]))
        if (cid, v["key"]) in known: kf.append(v)
        else: new.append(v)
    for v in kf:
        log("KNOWN-FINDING: property=%s %s" % (cid, known[(cid, v["key"])]))
    need = spec.get("min_evals", 1)
    if not new and not res.errors and not only_job and (res.evals < need or len(res.hashes) < spec.get("min_distinct", 2)):
        res.errors.append("monitor observed too little: %d evaluations, %d distinct" % (res.evals, len(res.hashes)))
    wall = time.time() - t0
    if write:
        os.makedirs(EVID, exist_ok=True)
        cov = {"evaluations": res.evals, "distinct_nontrivial": len(res.hashes), "rule": spec["rule"], "samples": sorted(res.samples)[:8] or ["(none)"]}
        obs = {k: (int(v) if v == int(v) else v) for k, v in sorted(res.adds.items())}
        obs.update({k: v for k, v in sorted(res.maxs.items())})
        cov["observed"] = obs
        cov["builds"] = sorted(set(j["variant"] for j in jobs))
        ev = {"property": cid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": spec.get("assumptions", []),
              "wall_s": round(wall, 2), "violations": len(new)}
        if res.errors: ev["coverage"]["errors"] = [e[:500] for e in res.errors]
        tmp = os.path.join(EVID, "." + cid + ".tmp")
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(EVID, cid + ".json"))
    if new:
        d = os.path.join(OUT, "replay", cid)
        os.makedirs(d, exist_ok=True)
        for v in new[:12]:
            p = os.path.join(d, hashlib.sha256((v["key"] + v["job"]).encode()).hexdigest()[:12] + ".json")
            json.dump({"property": cid, "tier": tier, "seed": seed, **v}, open(p, "w"), indent=1)
            log("violation of %s [%s]: %s" % (cid, v["job"], v["message"]))
            log("VIOLATION property=%s replay=%s" % (cid, p))
        return 1
    if res.errors:
        for e in res.errors[:5]: log("ERROR: " + e)
        return 2
    log("%s: held on %d evaluations (%d distinct), %.1f s" % (cid, res.evals, len(res.hashes), wall))
    return 0

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == "list":
        for c in sorted(CHECKS): print(c, CHECKS[c]["rule"])
        return 0
    if a[0] == "replay":
        r = json.load(open(a[1]))
        return check(r["property"], r["tier"], r["seed"], None if r["job"] == "script" else r["job"], r.get("index"), write=False)
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER") or "quick"
        seed = int(os.environ.get("VERIF_SEED") or 1)
        if "--tier" in a: tier = a[a.index("--tier") + 1]
        if "--seed" in a: seed = int(a[a.index("--seed") + 1])
        return check(a[1], tier, seed)
    if a[0] == "setup":
        os.makedirs(BUILD, exist_ok=True); os.makedirs(EVID, exist_ok=True)
        for t in ("g++", "clang++"):
            cmd_output(t + " --version", t)
        return 0
    print(__doc__)
    return 2

if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:
        import traceback
        traceback.print_exc()
        log("ERROR: the check itself failed")
        sys.exit(2)
