// C07: delay() against the measured response; constancy over histories.
#include "resp.hh"
using namespace mon;
static Mon M;
static void check_cfg (const Cfg& c)
{
  Rng g (mix (M.seed, c.index + 71));
  M.at ("%s|%d|delay", c.name().c_str(), c.index);
  auto r = c.make();
  const double d = r->delay();
  const std::string nm = c.name();
  if (!(d >= 0) || !std::isfinite (d)) { M.viol ("negative:" + nm, c.index, "%s: delay() = %g", nm.c_str(), d); return; }
  if (c.fir() && c.ratio == 2)
    {
      double q = c.up() ? d : d * 2;
      if (q != std::floor (q)) M.viol ("multiple:" + nm, c.index, "%s: delay() = %g is not a multiple of %g", nm.c_str(), d, c.up() ? 1.0 : 0.5);
    }
  // measured latency (several block sequences and amplitudes)
  for (int k = 0; k < (M.thorough ? 120 : 40); k++)
    {
      Response m = measure (c, resp_units (c), k ? &g : nullptr, k < 2 ? 1.0f : std::ldexp (g.sym() < 0 ? -1.25f : 1.75f, g.range (-30, 30)));
      const double dh = delay_high (c, d);
      if (c.fir())
        {
          double worst = 0, sum = 0, mx = 0; long n = m.h.size(); long c2 = std::lround (2 * (dh - m.t0));
          for (long i = 0; i < n; i++)
            {
              double a = m.h[i], b = (c2 - i >= 0 && c2 - i < n) ? m.h[c2 - i] : 0;
              worst = std::max (worst, std::fabs (a - b)); sum += std::fabs (a); mx = std::max (mx, std::fabs (a));
            }
          M.statmax ("worst_fir_asymmetry", worst / mx);
          if (std::fabs (2 * (dh - m.t0) - c2) > 1e-6 || worst > 2e-6 * mx)
            M.viol ("centre:" + nm, c.index, "%s: response is not symmetric around delay() = %g (asymmetry %.3g of %.3g)", nm.c_str(), d, worst, mx);
          if (c.up())
            {
              long p = std::lround (dh);
              if (p >= n || std::fabs (m.h[p] - 1) > 1e-6) M.viol ("first:" + nm, c.index, "%s: first input sample is not found at output[delay() = %g]", nm.c_str(), d);
            }
        }
      double worst = 0;
      for (double f : { 1000.0, 1000.0 })
        {
          double gd = group_delay (c, m, f / 44100);
          double err = std::fabs (gd - dh);
          worst = std::max (worst, err);
          M.statmax (c.fir() ? "worst_fir_group_delay_error_samples" : "worst_iir_group_delay_error_samples", err);
          // IIR: the two all-pass chains agree only to the precision of the design, delay() is stated for one of them
          const double lim = c.fir() ? 1e-4 : (c.prec == 8 ? 1e-2 : c.prec == 12 ? 4e-4 : c.prec == 16 ? 1e-4 : 2e-5) * c.ratio;
          if (!(err < lim))
            M.viol ("latency:" + nm, c.index, "%s: delay() = %.7g, measured group delay %.7g (output samples)", nm.c_str(), d, c.up() ? gd : gd / c.ratio);
        }
      M.eval (mix (mix (c.index, k), 1), true);
      if (k == 0) M.sample ("%s: delay() = %g, group delay at 1 kHz differs by %.2g high-rate samples", nm.c_str(), d, worst);
    }
  if (c.fir()) // constant group delay over the whole pass band
    {
      Response m = measure (c, resp_units (c));
      for (int i = 1; i <= 20; i++)
        {
          double gd = group_delay (c, m, i * 900.0 / 44100);
          if (!(std::fabs (gd - delay_high (c, d)) < 1e-3)) { M.viol ("constant:" + nm, c.index, "%s: group delay %.6g at %d Hz differs from delay() = %g", nm.c_str(), gd, i * 900, d); break; }
          M.eval (mix (mix (c.index, i), 2), true);
        }
    }
  // the value never changes
  {
    auto t = c.make(); std::unique_ptr<Resampler2> mv;
    for (int k = 0; k < 200; k++)
      {
        size_t u = g.below (5) ? g.below (80) : g.below (3000);
        vf x = mixed_signal (g, u * c.in_per(), 20), y (u * c.out_per());
        if (k % 50 == 49 && u) x[0] = NAN;
        t->process_block (x.data(), x.size(), y.data());
        if (g.below (10) == 0) t->reset();
        if (g.below (10) == 0) { mv.reset (new Resampler2 (std::move (*t))); t = std::move (mv); }
        const Resampler2& ct = *t;
        if (ct.delay() != d) { M.viol ("changes:" + nm, c.index, "%s: delay() was %.9g, is %.9g after %d calls", nm.c_str(), d, ct.delay(), k + 1); return; }
        M.eval (mix (mix (c.index, k), 3), true, 1);
      }
  }
  Cfg o = c; o.sse = !c.sse;
  if (o.make()->delay() != d) M.viol ("simd:" + nm, c.index, "%s: delay() depends on SIMD: %.9g / %.9g", nm.c_str(), d, o.make()->delay());
}
int main (int argc, char **argv)
{
  M.init (argc, argv, "C07");
  for (auto& c : all_cfgs()) if (M.mine (c.index)) check_cfg (c);
  return M.finish();
}
