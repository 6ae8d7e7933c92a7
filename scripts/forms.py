"""C22: builds and runs the same program in all forms of delivery and compares what it recorded."""
import array, os, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
BASE = "static"

def sh(cmd, cwd, timeout=300):
    p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=cwd, errors="replace", timeout=timeout)
    return p.returncode, p.stdout

def variants(R, tier, inc, lib, h):
    I, S, D = "-I" + inc, lib, os.path.join(h, "dump.cc")
    S2 = os.path.join(h, "second.cc")
    HO = "-DPANDA_RESAMPLER_HEADER_ONLY"
    v = {}
    def static(name, cxx="g++", fl="-O1 -std=c++11", lfl=None, second=False):
        lfl = fl if lfl is None else lfl
        sec = "-DC22_SECOND " if second else ""
        c = ["%s %s -c %s -o lib.o" % (cxx, I + " " + lfl, S), "ar rcs libp.a lib.o", "%s %s %s %s-w -c %s -o main.o" % (cxx, I, fl, sec, D)]
        if second: c.append("%s %s %s -w -c %s -o second.o" % (cxx, I, fl, S2))
        c.append("%s %s main.o %s libp.a -o prog" % (cxx, fl, "second.o" if second else ""))
        v[name] = c
    def shared(name, cxx="g++", fl="-O1 -std=c++11", link="-Wl,-z,defs"):
        v[name] = ["%s %s %s -fPIC -shared %s %s -o libp.so" % (cxx, I, fl, link, S), "%s %s %s -w %s -L. -lp -Wl,-rpath,'$ORIGIN' -o prog" % (cxx, I, fl, D)]
    def header(name, cxx="g++", fl="-O1 -std=c++11", tus=1, extra=""):
        if tus == 1: v[name] = ["%s %s %s %s %s -w %s -o prog" % (cxx, I, HO, fl, extra, D)]
        else: v[name] = ["%s %s %s %s -w -DC22_SECOND -c %s -o main.o" % (cxx, I, HO, fl, D), "%s %s %s %s -w -c %s -o second.o" % (cxx, I, HO, fl, S2), "%s %s %s main.o second.o -o prog" % (cxx, fl, extra)]
    static(BASE)
    static("static-two-tu", second=True); static("static-gnu++17", "g++", "-O2 -std=gnu++17 -fno-pie -no-pie -pthread", "-O2 -std=gnu++17 -fno-pie -pthread -D_FORTIFY_SOURCE=2 -fno-strict-aliasing")
    static("static-clang-O2", "clang++", "-O2 -std=c++14")
    static("static-mixed-standards", "g++", "-O1 -std=c++20", "-O2 -std=c++11")
    shared("shared"); shared("shared-clang", "clang++", "-O2 -std=c++17")
    header("header-only"); header("header-only-two-tu", tus=2); header("header-only-two-tu-clang", "clang++", "-O1 -std=c++17", 2); header("header-only-two-tu-O0", "g++", "-O0 -std=c++14", 2)
    header("header-only-c++20", "g++", "-O2 -std=c++20"); header("header-only-clang-c++20", "clang++", "-O1 -std=c++20")
    header("header-only-no-exceptions", "g++", "-O2 -std=c++11 -fno-exceptions -fno-rtti"); header("header-only-ndebug-O3", "g++", "-O3 -DNDEBUG -std=c++11")
    header("header-only-Os", "clang++", "-Os -DNDEBUG -std=c++14 -funsigned-char"); header("header-only-sanitized", "clang++", "-O1 -std=c++17 -fsanitize=address,undefined -fno-sanitize=vptr,function -fno-sanitize-recover=all"); header("header-only-debug", "g++", "-O0 -D_GLIBCXX_DEBUG -D_GLIBCXX_ASSERTIONS -std=c++11")
    static("static-no-exceptions", "clang++", "-O2 -std=c++11 -fno-exceptions -fno-rtti")
    # a plugin with the library inside, in a host that uses the library itself
    H = os.path.join(h, "host.cc")
    def plugin(name, cxx, fl, hostcxx, hostfl, shared):
        c = ["%s %s %s -fPIC -shared %s -o libp.so" % (hostcxx, I, hostfl, S)] if shared else []
        v[name] = c + ["%s %s %s %s -w -fPIC -shared -DC22_PLUGIN %s -o plug.so" % (cxx, I, HO, fl, D),
                       "%s %s %s -w %s %s -ldl -o prog" % (hostcxx, I, hostfl, H, "-L. -lp -Wl,-rpath,'$ORIGIN'" if shared else HO)]
    plugin("plugin", "g++", "-O2 -std=c++17", "g++", "-O1 -std=c++11", False); plugin("plugin-clang-hidden-in-shared-host", "clang++", "-O2 -std=c++14 -fvisibility=hidden", "g++", "-O2 -std=c++11", True)
    if " avx2" in open("/proc/cpuinfo").read() and " fma" in open("/proc/cpuinfo").read():
        static("static-avx2-fma", "g++", "-O3 -std=c++11 -mavx2 -mfma")
    # what the build system installs, found through pkg-config
    repo = os.path.dirname(R.INC)
    if shutil.which("meson") and shutil.which("ninja") and shutil.which("pkg-config") and os.path.exists(os.path.join(repo, "meson.build")):
        def installed(name, opts, cxx="g++", fl="-O1 -std=c++11", header=""):
            v[name] = ["meson setup b %s --prefix=$PWD/inst --libdir=lib %s" % (repo, opts), "meson install -C b", "rm -rf -- \"$PWD/b\"",
                       "PKG_CONFIG_PATH=$PWD/inst/lib/pkgconfig %s %s %s -w %s $(PKG_CONFIG_PATH=$PWD/inst/lib/pkgconfig pkg-config --cflags --libs pandaresampler) -Wl,-rpath,$PWD/inst/lib -o prog" % (cxx, header, fl, D)]
        installed("installed-shared", "")
        if tier == "thorough":
            installed("installed-static", "-Ddefault_library=static", "clang++", "-O2 -std=c++17"); installed("installed-debug", "-Dbuildtype=debug")
            installed("installed-header", "", "g++", "-O2 -std=c++11", HO)
    if tier == "thorough":
        for cxx in ("g++", "clang++"):
            for std in ("c++11", "c++14", "c++17", "c++20", "c++2b"):
                for o in ("-O0", "-O1", "-O2", "-O3", "-Os"):
                    static("t-static-%s-%s%s" % (cxx, std, o), cxx, o + " -std=" + std)
                    header("t-header-%s-%s%s" % (cxx, std, o), cxx, o + " -std=" + std + (" -DNDEBUG" if o in ("-O3", "-Os") else ""), 2)
            shared("t-shared-hidden-%s" % cxx, cxx, "-O2 -std=c++11 -fno-plt"); static("t-pie-%s" % cxx, cxx, "-O2 -std=c++11 -fPIE -pie")
            header("t-gnu-%s" % cxx, cxx, "-O2 -std=gnu++17"); header("t-noinline-%s" % cxx, cxx, "-O2 -std=c++11 -fno-inline", 2)
            header("t-stack-%s" % cxx, cxx, "-O2 -std=c++11 -fstack-protector-all -D_FORTIFY_SOURCE=2 -fno-strict-aliasing"); header("t-sections-%s" % cxx, cxx, "-O2 -std=c++11 -ffunction-sections -fdata-sections", 2, "-Wl,--gc-sections")
        static("t-lto", "g++", "-O2 -std=c++11 -flto"); static("t-native", "g++", "-O3 -std=c++11 -march=native"); static("t-cross", "clang++", "-O2 -std=c++17", "-O2 -std=c++11")
    return v

def run(R, cid, tier, seed, res, tmpdir):
    h = os.path.join(R.HARN, "c22")
    # what a user gets: a copy of the include tree at another place (nothing else of the repository)
    inc = os.path.join(tmpdir, "inst", "include")
    shutil.copytree(R.INC, inc)
    lib = os.path.join(inc, "pandaresampler", "pandaresampler.cc")
    vs = variants(R, tier, inc, lib, h)
    def viol(key, msg): 
        with res.lock: res.viol.append({"key": key, "index": -1, "message": " ".join(msg.split())[:600], "job": "forms", "shard": 0})
    def one(item):
        if res.hung: return item[0], "skipped", ""
        name, cmds = item
        d = os.path.join(tmpdir, "f_" + name); os.makedirs(d)
        try:
            for c in cmds:
                rc, out = sh(c, d)
                if rc: return name, "build", ("exceptions disabled " if "exceptions disabled" in out or "exception handling disabled" in out else "") + out[-1500:]
            for limit in (60, 120):     # takes less than a second
                rc, out = sh("ASAN_OPTIONS=detect_leaks=0 timeout -s KILL %d ./prog out.bin out.txt" % limit, d)
                if rc != 137: break
            if rc == 137: res.hung = True; return name, "run", "does not end"
            if rc: return name, "run", "status %d %s" % (rc, out[-1500:])
            a = array.array("f"); a.frombytes(open(d + "/out.bin", "rb").read())
            return name, "ok", (a, open(d + "/out.txt").read().splitlines(), out)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    got = {}
    syn = []
    for cxx in ("g++", "clang++"):
        for std in ("c++11", "c++14", "c++17", "c++20"):
            for ho in ("", "-DPANDA_RESAMPLER_HEADER_ONLY"):
                syn.append((cxx, std, ho))
    def alone(t):
        cxx, std, ho = t
        rc, out = sh("%s -std=%s %s -I%s -w -fsyntax-only %s" % (cxx, std, ho, inc, os.path.join(h, "alone.cc")), tmpdir)
        if rc == 0: rc, out = sh("%s -std=%s %s -I%s -w -fsyntax-only -x c++ %s" % (cxx, std, ho, inc, os.path.join(inc, "pandaresampler.hh")), tmpdir)
        return t, rc, out
    with ThreadPoolExecutor(8) as ex:
        fa = [ex.submit(alone, t) for t in syn]
        for r in ex.map(one, vs.items()): got[r[0]] = r[1:]
        for f in fa:
            (cxx, std, ho), rc, out = f.result()
            res.evals += 1; res.hashes.add(hash(("alone", cxx, std, ho)) & (2**64 - 1))
            if rc: viol("alone:%s:%s:%s" % (cxx, std, ho), "header cannot be included alone and first with %s -std=%s %s: %s" % (cxx, std, ho, out[:400]))
    if got[BASE][0] == "build":
        raise R.CheckError("the library cannot be built: " + got[BASE][1])
    if got[BASE][0] != "ok": viol("run:" + BASE, "program with the static library fails: " + got[BASE][1])
    ref = got[BASE][1] if got[BASE][0] == "ok" else None
    worst = 0.0
    for name, (st, data) in got.items():
        res.evals += 1; res.hashes.add(hash(("form", name)) & (2**64 - 1))
        if st == "skipped": continue
        if st == "build" and "no-exceptions" in name and ("exceptions disabled" in data or "exception handling disabled" in data or "fno-rtti" in data):
            res.adds["forms_not_buildable_without_exceptions"] = res.adds.get("forms_not_buildable_without_exceptions", 0) + 1; continue
        if st != "ok":
            viol("%s:%s" % (st, name), "%s: %s: %s" % (name, "cannot be built" if st == "build" else "program fails", data)); continue
        if not ref: continue
        a, q, out = data
        res.adds["samples_compared"] = res.adds.get("samples_compared", 0) + len(a)
        if out.strip(): viol("noise:" + name, "%s: prints '%s'" % (name, out[:200]))
        if len(a) != len(ref[0]): viol("length:" + name, "%s: %d samples recorded, %d with the static library" % (name, len(a), len(ref[0]))); continue
        bad = None
        for i, (x, y) in enumerate(zip(a, ref[0])):
            if x != y:
                d = abs(x - y)
                if not d <= 4e-6: bad = i; break
                if d > worst: worst = d
        if bad is not None: viol("output:" + name, "%s: sample %d of the record is %.9g, %.9g with the static library" % (name, bad, a[bad], ref[0][bad]))
        q = [l for l in q if not l.startswith("second")]; rq = [l for l in ref[1] if not l.startswith("second")]
        for l in data[1]:
            if l.startswith("second") and l != "second 1 1": viol("static-init:" + name, "%s: objects made before main() in another translation unit do not work" % name)
        for x, y in zip(q, rq):
            if x != y: viol("query:" + name, "%s: '%s', with the static library '%s'" % (name, x, y)); break
    res.maxs["worst_difference_between_builds"] = worst
    res.adds["forms_of_delivery"] = len(got); res.adds["header_alone_compilations"] = len(syn)
    res.samples.append("forms: " + ", ".join(sorted(got)[:20]))
