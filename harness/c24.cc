// C24: up- and downsampling (and down- and upsampling) of band limited signals gives the signal back. Oracle: the signal itself,
// evaluated at the time given by the two reported delays.
#include "resplim.hh"
using namespace mon;
static Mon M;
static void trip (const Cfg& up, const Cfg& dn, Rng& g, int round, int idx)
{
  const unsigned R = up.ratio; const bool ud = round % 2 == 0;     // up -> down, else down -> up
  const Cfg& c1 = ud ? up : dn; const Cfg& c2 = ud ? dn : up;
  const bool fir = up.fir() && dn.fir();
  const std::string nm = c1.name() + " then " + c2.name();
  auto a = c1.make(), b = c2.make();
  const double D = up.make()->delay() / R + dn.make()->delay();  // in low rate samples
  const size_t U = M.thorough ? 12000 : 3000, skip = (up.fir() ? up.fir_mem() : 900) + (dn.fir() ? dn.fir_mem() : 900) + 8;
  const int T = fir ? 1 + g.below (5) : 1; const float amp = round % 5 == 4 ? std::ldexp (1.0f, g.range (-40, 40)) : 1.0f;
  std::vector<double> f, ph, am; double A = 0; u64 h = 0;
  for (int i = 0; i < T; i++)
    {
      double fr = 0.0005 + g.uni() * (FP - 0.0005);
      if (up.prec == 1 || dn.prec == 1) fr *= 0.5;
      if (!fir && g.below (2)) fr = 0.004 + 0.02 * g.uni();
      f.push_back (fr); ph.push_back (g.uni() * 7); am.push_back (amp * (0.3 + g.uni())); A += am.back(); h = mix (h, u64 (fr * 1e12));
    }
  const double rate = ud ? 1 : R;
  vf x (U * c1.in_per()), mid (U * c1.out_per()), y (U * c2.out_per());
  for (size_t i = 0; i < x.size(); i++) { double s = 0; for (int k = 0; k < T; k++) s += am[k] * std::sin (2 * M_PI * f[k] * i / rate + ph[k]); x[i] = s; }
  M.at ("%s|%d|tone %.1f Hz", nm.c_str(), idx, f[0] * 44100);
  run_all (*a, c1, x.data(), U, mid.data(), random_sizes (g, U, 1u << g.range (1, 11)));
  run_all (*b, c2, mid.data(), U, y.data(), random_sizes (g, U, 1u << g.range (1, 11)));
  auto pass = [&] (const Cfg& c) { return c.prec == 1 ? 0.17 : c.fir() ? std::pow (10, fir_pass_db (c) / 20) : iir_amp (c); };
  const double stop = (R - 1) * (up.prec == 1 ? 0.17 : std::pow (10, stop_db (up) / 20));
  double worst = 0, lim = 0;
  if (fir)
    {
      for (size_t i = skip * c2.out_per(); i < y.size(); i++)
        { double s = 0; for (int k = 0; k < T; k++) s += am[k] * std::sin (2 * M_PI * f[k] * (i / rate - D) + ph[k]); double e = std::fabs (y[i] - s); if (!(e <= worst)) worst = e; }
      const double p1 = pass (up), p2 = pass (dn);
      lim = A * (p1 + p2 + p1 * p2 + (ud ? stop * std::pow (10, stop_db (dn) / 20) : stop) + 2.5e-6);
    }
  else
    {
      const double w = 2 * M_PI * f[0] / rate;
      double cc = 0, cs = 0, ss = 0, yc = 0, ys = 0;
      for (size_t i = skip * c2.out_per(); i < y.size(); i++) { double C = std::cos (w * i), S = std::sin (w * i); cc += C * C; cs += C * S; ss += S * S; yc += y[i] * C; ys += y[i] * S; }
      double det = cc * ss - cs * cs, p = (yc * ss - ys * cs) / det, q = (ys * cc - yc * cs) / det;
      for (size_t i = skip * c2.out_per(); i < y.size(); i++) { double e = std::fabs (y[i] - p * std::cos (w * i) - q * std::sin (w * i)); if (!(e <= worst)) worst = e; }
      lim = A * (stop * 1.1 + 4e-6);
      const double ea = std::fabs (std::sqrt (p * p + q * q) - am[0]), la = am[0] * (pass (up) + pass (dn) + 4e-6 + stop * 0.02);
      M.statmax ("amplitude_error_over_limit", ea / la);
      if (!(ea <= la)) { M.viol ("amplitude:" + nm, idx, "%s: %.2f Hz: amplitude %.9g, was %.9g", nm.c_str(), f[0] * 44100, std::sqrt (p * p + q * q), am[0]); return; }
      if (f[0] < 0.025)   // phase delay at low frequencies
        {
          // y = am sin (w (i - D rate) + ph)
          double pd = std::remainder (std::atan2 (p, q) - ph[0] + w * D * rate, 2 * M_PI) / (2 * M_PI * f[0]);
          M.statmax ("worst_iir_delay_error_low_rate_samples", std::fabs (pd));
          if (!(std::fabs (pd) < 0.02)) { M.viol ("delay:" + nm, idx, "%s: %.2f Hz comes back %.5f samples earlier than the sum of the delays %.5f", nm.c_str(), f[0] * 44100, pd, D); return; }
        }
    }
  M.statmax ("error_over_limit", worst / lim); M.stat ("samples_compared", y.size()); M.stat (fir ? "fir_round_trips" : "iir_round_trips", 1);
  M.eval (mix (mix (idx, round), h), true, 1);
  if (round == 0) M.sample ("%s: %d tone(s) from %.1f Hz, delay %.4f, error %.3g of %.3g", nm.c_str(), T, f[0] * 44100, D, worst / A, lim / A);
  if (!(worst <= lim)) M.viol ("trip:" + nm, idx, "%s: %d tone(s), first %.2f Hz, amplitude sum %.4g: error reaches %.4g (allowed %.4g)", nm.c_str(), T, f[0] * 44100, A, worst, lim);
}
int main (int argc, char **argv)
{
  M.init (argc, argv, "C24");
  auto cs = all_cfgs();
  int idx = 0;
  for (auto& u : cs) if (u.up())
    for (auto& d : cs) if (!d.up() && d.ratio == u.ratio)
      {
        const bool same = u.prec == d.prec && u.filter == d.filter;
        const int i = idx++;
        if (!M.mine (i)) continue;
        Rng g (mix (M.seed, i + 241));
        // the pair of the same specification more often; mixed pairs too
        const int n = same ? (M.thorough ? 200 : 30) : M.thorough ? 12 : (g.below (8) == 0 ? 2 : 0);
        const int off = g.below (2);
        for (int k = 0; k < n; k++) trip (u, d, g, same ? k : k + off, i);
      }
  return M.finish();
}
