#!/usr/bin/env python3-vt
"""Independent re-derivation of the documented filter designs (no code of /repo is used).

FIR: half-band sinc, ultraspherical window (mu = 0.75) with given attenuation of the last
(most distant) side lobe -- the parameters documented in filter-design/mkfir.sh.
IIR: half-band elliptic polyphase filter for attenuation 6 dB per bit and pass band end
18 kHz at 44.1 kHz base rate -- the parameters documented in filter-design/mkiir.cc --
computed here with exact Jacobi elliptic functions instead of truncated theta series.

Writes ../harness/design.inc (committed); 60 digit arithmetic."""
import os
import mpmath as mp
mp.mp.dps = 60

FIR = [(2,24,52,138),(4,24,16,136),(8,24,12,136),(2,20,42,113.75),(4,20,14,113.75),(8,20,10,113.75),
       (2,16,32,88.5),(4,16,10,86.5),(8,16,8,88.5),(2,12,24,67.5),(4,12,8,67.5),(8,12,6,67.5),
       (2,8,16,48),(4,8,6,46),(8,8,4,42)]

def geg(n, mu, x):
    a, b = mp.mpf(1), 2 * mu * x
    if n == 0: return a
    for k in range(2, n + 1):
        a, b = b, (2 * x * (k + mu - 1) * b - (k + 2 * mu - 2) * a) / k
    return b
def bisect(f, lo, hi):
    s = f(lo) > 0
    for _ in range(200):
        m = (lo + hi) / 2
        if (f(m) > 0) == s: lo = m
        else: hi = m
    return lo
def fir(n, att):
    mu = mp.mpf(3) / 4
    M, L = 2 * n, 2 * n + 1
    dg = lambda x: 2 * mu * geg(M - 1, mu + 1, x)
    d = mp.mpf(1) / (20 * M); x = d
    while (dg(x) > 0) == (dg(x + d) > 0): x += d
    ref = abs(geg(M, mu, bisect(dg, x, x + d)))
    t = mp.mpf(10) ** (mp.mpf(att) / 20)
    xm = bisect(lambda z: geg(M, mu, z) / ref - t, mp.mpf(1), mp.mpf(10))
    W = [geg(M, mu, xm * mp.cos(mp.pi * k / L)) for k in range(L)]
    w = [sum(W[k] * mp.cos(2 * mp.pi * k * i / L) for k in range(L)) for i in range(n + 1)]
    half = [(mp.sin(mp.pi * i / 2) / (mp.pi * i / 2)) * w[i] / w[0] / 2 for i in range(1, n + 1, 2)]
    return half[::-1] + half

def iir(stage, bits):
    end, rate = mp.mpf(18000), mp.mpf(44100) * stage / 2
    tbw = (rate / 2 - end) / rate
    k = mp.tan((1 - tbw * 2) * mp.pi / 4) ** 2        # selectivity of the elliptic filter
    K = mp.ellipk(k * k)
    Kp = mp.ellipk(1 - k * k)
    q = mp.exp(-mp.pi * Kp / K)
    def atten(nc):                                    # exact: discrimination factor from the nome
        N = 2 * nc + 1
        qN = q ** N
        k1 = (mp.jtheta(2, 0, qN) / mp.jtheta(3, 0, qN)) ** 2
        # half-band: passband and stopband ripple are power complementary, eps_p = 1/eps_s
        # eps_s^2 = 1/k1 -> stopband gain^2 = 1/(1+1/k1)
        return -10 * mp.log10(k1 / (1 + k1))
    nc = 1
    while atten(nc) < 6 * bits: nc += 1
    N = 2 * nc + 1
    co = []
    for c in range(1, nc + 1):
        ww2 = k * mp.ellipfun('sn', 2 * K * c / N, m=k * k) ** 2
        x = mp.sqrt((1 - ww2 * k) * (1 - ww2 / k)) / (1 + ww2)
        co.append((1 - x) / (1 + x))
    w = 2 * mp.pi * 1000 / (44100 * stage)
    # numeric derivative of the phase of A0(z^2): group delay of the path of the even coefficients
    def ph(w):
        z = mp.expj(-w); h = mp.mpf(0)
        p = mp.mpf(0)
        for a in co[0::2]:
            p += mp.arg(((a + z * z) / (1 + a * z * z)) / (z * z)) - 2 * w
        return p
    gd = -mp.diff(ph, w)
    return co, gd, atten(nc)

out = ["// generated by tools/gen_design.py -- independent of the code under test", ""]
out.append("static const FirStage fir_stages[] = {")
out.append("  {0, 1, 2, {0.25, 0.25}},")
for st, bits, n, att in FIR:
    c = fir(n, att)
    out.append("  {%d, %d, %d, {%s}}," % (st, bits, n, ", ".join(mp.nstr(x, 18) for x in c)))
out.append("};")
out.append("static const IirStage iir_stages[] = {")
for st in (2, 4, 8):
    for bits in (8, 12, 16, 20, 24):
        co, gd, at = iir(st, bits)
        out.append("  {%d, %d, %d, %s, %s, {%s}}," % (st, bits, len(co), mp.nstr(gd, 12), mp.nstr(at, 12), ", ".join(mp.nstr(x, 18) for x in co)))
out.append("};")
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "design.inc")
open(p, "w").write("\n".join(out) + "\n")
