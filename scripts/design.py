"""C20: output of the repository's filter design program against the independent designs and the delays of the resampler."""
import os, re
def run(R, cid, tier, seed, res, tmpdir):
    src = os.path.join(R.REPO, "filter-design", "mkiir.cc")
    def viol(key, msg): res.viol.append({"key": key, "index": -1, "message": " ".join(msg.split())[:600], "job": "mkiir", "shard": 0})
    ref = {}
    t = open(os.path.join(R.HARN, "design.inc")).read()
    t = t[t.index("iir_stages"):]
    for m in re.finditer(r"\{(\d+), (\d+), (\d+), ([\d.e+-]+), ([\d.e+-]+), \{([^}]*)\}", t):
        ref[(int(m.group(1)), int(m.group(2)))] = (float(m.group(4)), [float(x) for x in m.group(6).split(",")][:int(m.group(3))])
    if len(ref) < 15: raise R.CheckError("cannot read design.inc")
    worst = 0.0
    for cxx, fl in (("g++", "-O2"), ("clang++", "-O1 -fsanitize=address,undefined -fno-sanitize-recover=all")):
        exe = os.path.join(tmpdir, "mkiir_" + cxx)
        rc = R.subprocess.run("%s %s -std=c++11 -w -I%s %s -o %s" % (cxx, fl, R.INC, src, exe), shell=True, stdout=R.subprocess.PIPE, stderr=R.subprocess.STDOUT, text=True)
        if rc.returncode: viol("mkiir-build", "filter-design/mkiir.cc cannot be built: " + rc.stdout[-400:]); return
        rc, so, se = R.run_program(exe, [], None, 120)
        if rc != 0: viol("mkiir-run:" + cxx, "filter-design/mkiir.cc ends with status %s: %s" % (rc, se[-400:])); return
        seen = {}
        for m in re.finditer(r"coeffs(\d)_(\d+) = \{([^}]*)\}", so): seen[(int(m.group(1)), int(m.group(2)))] = [float(x) for x in m.group(3).split(",") if x.strip()]
        gds = {(int(a), int(b)): float(g) for a, b, g in re.findall(r"coeffs(\d)_(\d+), ([\d.]+)\)", so)}
        for k, (gd, co) in sorted(ref.items()):
            what = "stage %d, %d bits" % k
            res.evals += 1; res.hashes.add((hash((cxx, k)) & (2**64 - 1)))
            if k not in seen or k not in gds: viol("mkiir-missing:%d_%d" % k, "design program: no coefficients or delay for " + what); continue
            if len(seen[k]) != len(co): viol("mkiir-count:%d_%d" % k, "design program: %d coefficients for %s, the minimal design has %d" % (len(seen[k]), what, len(co))); continue
            d = max(abs(a - b) for a, b in zip(seen[k], co)); worst = max(worst, d)
            if not d < 1e-9: viol("mkiir-coefs:%d_%d" % k, "design program: coefficients of %s differ from the elliptic design by %g" % (what, d))
            if not abs(gds[k] - gd) < 2e-6: viol("mkiir-delay:%d_%d" % k, "design program: delay of %s is %.7g, of the design %.7g" % (what, gds[k], gd))
        # the delays the resampler reports
        exe2 = R.program("gcc", "c20.cc")
        rc, so, se = R.run_program(exe2, ["mode=delays"], None, 120)
        if rc != 0: raise R.CheckError("delay query failed: " + se[-300:])
        for l in so.splitlines():
            p, r, up, dn = l.split(); p, r, up, dn = int(p), int(r), float(up), float(dn)
            u = d = 0.0; k = 1.0
            for s in (2, 4, 8):
                if s <= r and (s, p) in gds:
                    u += u + gds[(s, p)]; d += (gds[(s, p)] - 1) / 2 * k; k /= 2
            res.evals += 1; res.hashes.add((hash((cxx, p, r)) & (2**64 - 1)))
            if abs(u - up) > 1e-5 or abs(d - dn) > 1e-5: viol("resampler-delay:%d_%d" % (p, r), "delay() of %d bits, ratio %d is %.8g / %.8g, the design program says %.8g / %.8g" % (p, r, up, dn, u, d))
    res.maxs["worst_coefficient_difference_to_design_program"] = worst
    res.adds["designs_compared"] = 2 * len(ref)
