// C19: FIR responses against the documented designs (design.inc is computed independently from the documented window).
#include "resp.hh"
using namespace mon;
static Mon M;
static double ulp (double v) { float f = std::fabs (v); return std::max (double (std::nextafter (f, INFINITY) - f), 1e-45); }
static void check_cfg (const Cfg& c)
{
  Rng g (mix (M.seed, c.index + 191));
  const std::string nm = c.name();
  M.at ("%s|%d|taps", nm.c_str(), c.index);
  // reported order
  {
    auto r = c.make();
    for (int k = 0; k < 3; k++)
      {
        if (int (r->order()) != c.fir_stage (2)->n) M.viol ("order:" + nm, c.index, "%s: order() = %u, the ratio 2 stage has %d taps", nm.c_str(), r->order(), c.fir_stage (2)->n);
        vf x (100 * c.in_per(), k == 1 ? NAN : 1), y (100 * c.out_per()); r->process_block (x.data(), x.size(), y.data()); if (k == 1) r->reset();
        M.eval (mix (c.index, k + 7));
      }
  }
  // taps of the ratio 2 filters, one by one, at several powers of two (exact scaling)
  if (c.ratio == 2)
    for (int k = 0; k < (M.thorough ? 40 : 8); k++)
      {
        const FirStage& f = *c.fir_stage (2); const int N = f.n;
        Response q = measure (c, N + 12, k ? &g : nullptr, std::ldexp (k % 2 ? -1.0f : 1.0f, k < 2 ? 0 : g.range (-60, 90)));
        const double sc = c.up() ? 2 : 1;
        // even positions on the high rate axis: the taps; the centre on an odd position
        long n_nz = 0;
        for (long i = 0; i < long (q.h.size()); i++)
          {
            const double t = i + q.t0;
            double want = 0; bool tap = false, centre = false;
            if (c.up()) { if (i % 2 == 0 && i / 2 < N) { want = sc * f.taps[i / 2]; tap = true; } else if (i == 2 * (N / 2 - 1) + 1) { want = 1; centre = true; } }
            else        // q.h index: i = 2*m + (1 - p) -> p = 0 even samples (taps) at odd i, p = 1 (centre) at even i
              { if (i % 2 == 1 && i / 2 < N) { want = f.taps[i / 2]; tap = true; } else if (i == N) { want = 0.5; centre = true; } }
            const double d = std::fabs (q.h[i] - want);
            if (tap) { M.statmax ("worst_tap_error_ulps", d / ulp (want)); n_nz += q.h[i] != 0; }
            if (centre && q.h[i] != want) { M.viol ("centre:" + nm, c.index, "%s: centre tap is %.9g, not %.9g", nm.c_str(), q.h[i], want); return; }
            if (tap && d > 1.5 * ulp (want) + 1e-13) { M.viol ("tap:" + nm, c.index, "%s: response at %g is %.9g, the design says %.9g", nm.c_str(), t, q.h[i], want); return; }
            if (!tap && !centre && q.h[i] != 0) { M.viol ("zero:" + nm, c.index, "%s: response at %g is %.9g, a half-band filter has a zero there", nm.c_str(), t, q.h[i]); return; }
            M.eval (mix (mix (c.index, i), k), tap || centre);
          }
        for (int i = 0; i < N; i++)
          {
            const double a = q.h[2 * i + (c.up() ? 0 : 1)], b = q.h[2 * (N - 1 - i) + (c.up() ? 0 : 1)];
            if (a != b) { M.viol ("symmetry:" + nm, c.index, "%s: taps %d and %d differ: %.9g, %.9g", nm.c_str(), i, N - 1 - i, a, b); return; }
          }
        if (n_nz != N) { M.viol ("count:" + nm, c.index, "%s: %ld non-zero taps, expected %d", nm.c_str(), n_nz, N); return; }
        M.stat ("taps_compared", N + 1);
        if (k == 0) M.sample ("%s: %d taps, centre and zeros equal the design", nm.c_str(), N);
      }
  // all ratios: impulses at every phase and position, noise and structured streams against the cascade in double precision
  for (int k = 0; k < (M.thorough ? 400 : 40); k++)
    {
      const size_t U = k < 20 ? c.fir_mem() * 2 + 20 : 300 + g.below (4000);
      vf x (U * c.in_per(), 0.0f);
      if (k < 20) x[k < int (2 * c.in_per()) ? k : g.below (x.size())] = k % 2 ? 1.0f : std::ldexp (g.sym() + 1.5f, g.range (-20, 20));
      else if (k % 2) for (auto& v : x) v = g.sym();
      else x = mixed_signal (g, x.size(), 40);
      vf y (U * c.out_per()); auto r = c.make();
      M.at ("%s|%d|stream %d", nm.c_str(), c.index, k);
      run_all (*r, c, x.data(), U, y.data(), random_sizes (g, U, 1u << g.range (1, 10)));
      Out o = model (c, x.data(), U);
      Cmp m = compare (y.data(), o.y.data(), o.b.data(), y.size(), k < 20 ? 12 : 40);
      M.statmax ("worst_stream_error_ulps", m.worst); M.stat ("samples_compared", y.size());
      M.eval (mix (mix (c.index, k), U), true, 1);
      if (!m.ok) { M.viol ((k < 20 ? "impulse:" : "stream:") + nm, c.index, "%s: output[%zu] = %.9g, the documented filters give %.9g (allowance %.3g)", nm.c_str(), m.at, m.a, m.r, m.t); return; }
    }
}
int main (int argc, char **argv)
{
  M.init (argc, argv, "C19");
  for (auto& c : all_cfgs()) if (c.fir() && M.mine (c.index)) check_cfg (c);
  return M.finish();
}
