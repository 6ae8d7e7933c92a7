// C10: linear and time invariant. Oracles: metamorphic relations between recorded streams (sum, scale, shift).
#include "mon.hh"
using namespace mon;
static Mon M;
static vf run (const Cfg& c, const vf& x, const std::vector<u32>& s)
{
  const size_t U = x.size() / c.in_per(); vf y (U * c.out_per());
  auto r = c.make(); run_all (*r, c, x.data(), U, y.data(), s);
  return y;
}
static std::vector<u32> sched (Rng& g, size_t U) { return g.below (4) ? random_sizes (g, U, 1u << g.range (1, 12)) : std::vector<u32>(); }
static bool report (const Cfg& c, const char *rel, const Cmp& r, const char *info)
{
  M.statmax (std::string ("worst_") + rel + "_ulps", r.worst);
  if (!r.ok) M.viol (std::string (rel) + ":" + c.name(), c.index, "%s: %s (%s): output[%zu] = %.9g, expected %.9g (tolerance %.3g)", c.name().c_str(), rel, info, r.at, r.a, r.r, r.t);
  return r.ok;
}
static void check_cfg (const Cfg& c)
{
  Rng g (mix (M.seed, c.index + 101));
  const int R = M.thorough ? 200 : 40;
  char info[100];
  for (int k = 0; k < R; k++)
    {
      const size_t U = 400 + g.below (6000), n = U * c.in_per();
      vf a = mixed_signal (g, n, 40), b = mixed_signal (g, n, 40), s (n), z (n);
      float sa = std::ldexp (1.0f, g.below (3) ? 0 : g.range (-12, 12));
      for (size_t i = 0; i < n; i++) { b[i] *= sa; s[i] = a[i] + b[i]; z[i] = std::fabs (a[i]) + std::fabs (b[i]); }
      snprintf (info, sizeof info, "round %d, %zu units", k, U);
      M.at ("%s|%d|sum, %s", c.name().c_str(), c.index, info);
      vf ya = run (c, a, sched (g, U)), yb = run (c, b, sched (g, U)), ys = run (c, s, sched (g, U));
      vd e (ys.size()); for (size_t i = 0; i < e.size(); i++) e[i] = double (ya[i]) + yb[i];
      vd bz = bound (c, z.data(), U);
      M.stat ("sum_samples", e.size()); M.eval (mix (mix (c.index, k), U));
      if (!report (c, "sum", compare (ys.data(), e.data(), bz.data(), e.size(), 80), info)) return;
      // scaling by a power of two (any level) and by an arbitrary factor
      for (int q = 0; q < 3; q++)
        {
          double f = q == 0 ? std::ldexp (1.0, g.range (-105, 100)) : q == 1 ? std::ldexp (g.uni() + 0.5, g.range (-60, 60)) * (g.below (2) ? -1 : 1) : g.sym() * 3;
          vf x (n); for (size_t i = 0; i < n; i++) x[i] = a[i] * f;
          snprintf (info, sizeof info, "factor %.9g, round %d", f, k);
          M.at ("%s|%d|scale %s", c.name().c_str(), c.index, info);
          vf y = run (c, x, sched (g, U));
          vd ba = bound (c, a.data(), U);
          for (size_t i = 0; i < e.size(); i++) { e[i] = double (ya[i]) * f; ba[i] = ba[i] * std::fabs (f) + 1e-36 * (1 + std::fabs (f)); }
          M.stat ("scaled_samples", e.size()); M.eval (mix (mix (c.index, k), q + 1000));
          if (!report (c, "scale", compare (y.data(), e.data(), ba.data(), e.size(), 80), info)) return;
        }
      // delay by any number of low-rate samples
      size_t d = k % 5 == 0 ? 1 + g.below (40) : k % 5 == 1 ? g.below (5000) : k % 5 == 2 ? 1024 * (1 + g.below (6)) + g.below (3) - 1 : k % 5 == 3 ? 300000 + g.below (100000) : g.below (64);
      if (M.thorough && k == 3) d = 6000000;
      const size_t Us = std::min<size_t> (U, 1500);
      vf xd (Us * c.in_per() + d * c.in_per(), 0.0f); std::copy (a.begin(), a.begin() + Us * c.in_per(), xd.begin() + d * c.in_per());
      snprintf (info, sizeof info, "delay %zu", d);
      M.at ("%s|%d|shift %s", c.name().c_str(), c.index, info);
      vf yd = run (c, xd, sched (g, Us + d));
      vd ba = bound (c, a.data(), Us);
      M.stat ("shifted_samples", yd.size()); M.statmax ("largest_shift_units", d); M.eval (mix (mix (c.index, k), 7000 + d));
      for (size_t i = 0; i < d * c.out_per(); i++) if (!(yd[i] == 0)) { M.viol ("shift:" + c.name(), c.index, "%s: output[%zu] = %g before the delayed signal starts (%s)", c.name().c_str(), i, yd[i], info); return; }
      if (!report (c, "shift", compare (&yd[d * c.out_per()], ya.data(), ba.data(), Us * c.out_per()), info)) return;
      // deep in a continuous stream: the same passage again (after the memory of the filter has seen the same)
      if (k % 3 == 0)
        {
          const size_t P = 700, reps = M.thorough ? 4000 : 60;
          vf p (a.begin(), a.begin() + std::min<size_t> (P, Us) * c.in_per()); const size_t pu = p.size() / c.in_per();
          if (pu == P)
            {
              auto r = c.make(); vf y1 (P * c.out_per()), y (P * c.out_per()); vd bp (y.size()); { vf pp (p); pp.insert (pp.end(), p.begin(), p.end()); vd t = bound (c, pp.data(), 2 * P); double m = 0; for (double v : t) m = std::max (m, v); for (auto& v : bp) v = m; }
              double peak = 0; for (float v : p) peak = std::max (peak, double (std::fabs (v)));
              for (size_t q = 0; q < reps; q++)
                {
                  run_all (*r, c, p.data(), P, q == 2 ? y1.data() : y.data(), sched (g, P));
                  if (q > 2)
                    {
                      snprintf (info, sizeof info, "repetition %zu of a period of %zu units", q, P);
                      // IIR: the previous periods have decayed to less than 1e-8 only
                      vd bb = bp; if (!c.fir()) for (auto& v : bb) v += peak * 4;
                      if (!report (c, "periodic", compare (y.data(), y1.data(), bb.data(), y.size()), info)) return;
                      M.stat ("periodic_samples", y.size());
                    }
                }
              M.eval (mix (mix (c.index, k), 8000));
            }
        }
    }
  M.sample ("%s: %d rounds of sum, scaling and shift relations", c.name().c_str(), R);
}
int main (int argc, char **argv)
{
  M.init (argc, argv, "C10");
  for (auto& c : all_cfgs()) if (M.mine (c.index)) check_cfg (c);
  return M.finish();
}
