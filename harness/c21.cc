// C21: the IIR designer. Oracles: exact elliptic attenuation (AGM), measured response of the structure built from the coefficients,
// numeric derivative of the phase of the first all-pass chain.
#include "mon.hh"
#include "pandaresampler/hiir/PolyphaseIir2Designer.cpp"
using namespace mon;
typedef PandaResampler::hiir::PolyphaseIir2Designer D;
typedef long double LD; typedef std::complex<long double> CLD;
static Mon M;
static const LD PI_ = 3.14159265358979323846264338327950288L;
static LD agm (LD a, LD b) { for (int i = 0; i < 60; i++) { LD c = (a + b) / 2; b = std::sqrt (a * b); a = c; } return a; }
// attenuation (dB) of the elliptic half-band filter with nc coefficients
static LD exact_atten (int nc, LD tbw)
{
  LD t = std::tan ((1 - 2 * tbw) * PI_ / 4), k = t * t, kp = std::sqrt ((1 - k) * (1 + k));
  LD lnq = -PI_ * agm (1, kp) / agm (1, k);       // ln q = -pi K'/K
  LD n = 2 * nc + 1, lq1 = lnq * n, q1 = std::exp (lq1), r = 1;
  for (int m = 1; m < 400; m++) { LD f = (1 + std::exp (lq1 * 2 * m)) / (1 + std::exp (lq1 * (2 * m - 1))); r *= f * f * f * f; }
  LD k1 = 4 * std::sqrt (q1) * r;
  return 10 * std::log10 (1 + 1 / k1);
}
static CLD cell (LD a, CLD z2) { return (a + z2) / (LD (1) + a * z2); }
// response of the half-band filter at f (relative to the high rate)
static LD mag (const double *c, int n, LD f)
{
  CLD z = std::polar (LD (1), -2 * PI_ * f), z2 = z * z, a = 1, b = z;
  for (int i = 0; i < n; i += 2) a *= cell (c[i], z2);
  for (int i = 1; i < n; i += 2) b *= cell (c[i], z2);
  return std::abs (a + b) / 2;
}
static LD gd_num (const double *c, int n, LD f, bool ph)      // numeric derivative of the phase, cells 0, 2, 4..
{
  LD s = 0; const LD w = 2 * PI_ * f, h = 1e-6L;
  for (int i = 0; i < n; i += 2)
    {
      auto A = [&] (LD w) { CLD z2 = std::polar (LD (1), -2 * w); return ph ? (LD (c[i]) - z2) / (LD (1) - LD (c[i]) * z2) : cell (c[i], z2); };
      auto d = [&] (LD h) { return -std::arg (A (w + h) / A (w - h)) / (2 * h); };
      s += (4 * d (h / 2) - d (h)) / 3;
    }
  return s;
}
static bool coefs_ok (const std::string& what, const double *c, int n, int idx)
{
  for (int i = 0; i < n; i++)
    if (!(c[i] > 0 && c[i] < 1) || (i && !(c[i] > c[i - 1])))
      { M.viol ("coefs:" + what, idx, "%s, %d coefficients: coefficient %d is %.17g%s", what.c_str(), n, i, c[i], i ? (c[i] > c[i - 1] ? "" : ", not larger than the one before") : ""); return false; }
  return true;
}
// measured attenuation of the coefficients
static bool response_ok (const std::string& what, const double *c, int n, double att, double tbw, int idx)
{
  LD worst = 0, pass = 2; const int P = 40 + 6 * n;
  auto at = [&] (LD u) { worst = std::max (worst, mag (c, n, 0.25L + tbw / 2 + (0.25L - tbw / 2) * u)); pass = std::min (pass, mag (c, n, 0.25L - tbw / 2 - (0.25L - tbw / 2) * u)); };
  for (int i = 0; i <= P; i++) { at (LD (i) / P); at (std::pow (LD (i) / P, 4)); }
  const LD lim = std::pow (10.0L, -att / 20) * 1.006L + 2e-12L + 2e-15L * n / tbw, pl = std::sqrt (std::max<LD> (0, 1 - lim * lim)) - 1e-11L;
  M.stat ("responses_measured", 1);
  if (!(worst <= lim)) { M.viol ("attenuation:" + what, idx, "%s: %d coefficients, transition %.6g: attenuation is %.4Lf dB, not %.4f dB", what.c_str(), n, tbw, -20 * std::log10 (worst), att); return false; }
  if (!(pass >= pl)) { M.viol ("passband:" + what, idx, "%s: %d coefficients, transition %.6g: pass band drops to %.9Lf", what.c_str(), n, tbw, pass); return false; }
  return true;
}
static double rnd_tbw (Rng& g) { return g.below (3) ? 0.001 + 0.489 * g.uni() : std::pow (10, (g.below (4) ? -3 : -4.7) + 2.69 * g.uni()); }
static void spec (int idx)
{
  Rng g (mix (M.seed, idx + 2100));
  double att = g.below (8) == 0 ? 180 + 120 * g.uni() : g.below (4) ? 10 + 170 * g.uni() : g.below (2) ? 6.0 * g.range (1, 30) : 0.5 + 20 * g.uni(), tbw = rnd_tbw (g);
  M.at ("spec|%d|attenuation %.17g transition %.17g", idx, att, tbw);
  const int n = D::compute_nbr_coefs_from_proto (att, tbw);
  if (n < 1 || n > D::_max_order) { M.viol ("count", idx, "attenuation %g, transition %g: %d coefficients", att, tbw, n); return; }
  const LD A = exact_atten (n, tbw), Al = n > 1 ? exact_atten (n - 1, tbw) : 0;
  const double slack = att >= 15 ? 0.05 : 0.9;
  M.statmax ("largest_number_of_coefficients", n);
  if (!(A >= att - slack)) M.viol ("feasible", idx, "attenuation %g, transition %g: %d coefficients reach %.4Lf dB only", att, tbw, n, A);
  if (n > 1 && !(Al < att + slack)) M.viol ("minimal", idx, "attenuation %g, transition %g: %d coefficients, but %d reach %.4Lf dB", att, tbw, n, n - 1, Al);
  std::vector<double> c (n + 8, 7), d (n + 8, 7);
  const int m = D::compute_coefs (c.data(), att, tbw);
  D::compute_coefs_spec_order_tbw (d.data(), n, tbw);
  if (m != n) { M.viol ("count-differs", idx, "attenuation %g, transition %g: compute_coefs gives %d coefficients, compute_nbr_coefs_from_proto %d", att, tbw, m, n); return; }
  for (int i = 0; i < 8; i++) if (c[n + i] != 7 || d[n + i] != 7) { M.viol ("overrun", idx, "more than %d coefficients written", n); return; }
  for (int i = 0; i < n; i++) if (!(std::fabs (c[i] - d[i]) < 1e-12)) { M.viol ("designs-differ", idx, "coefficient %d: %.17g / %.17g", i, c[i], d[i]); break; }
  coefs_ok ("spec", c.data(), n, idx) && response_ok ("spec", c.data(), n, att < 15 ? att - 0.9 : att, tbw, idx);
  // any number of coefficients
  const int nc = g.range (1, g.below (3) ? 12 : g.below (4) ? 40 : 120); double t2 = rnd_tbw (g);
  LD ex = exact_atten (nc, t2);
  if (ex < 220)
    {
      const double a = D::compute_atten_from_order_tbw (nc, t2);
      std::vector<double> e (nc + 8, 7);
      D::compute_coefs_spec_order_tbw (e.data(), nc, t2);
      M.at ("spec|%d|%d coefficients, transition %.17g", idx, nc, t2);
      if (ex > 15) M.statmax ("worst_attenuation_difference_dB", std::fabs (a - ex));
      if (!(std::fabs (a - ex) < (ex > 15 ? 0.05 : 1.5))) M.viol ("atten", idx, "%d coefficients, transition %g: attenuation reported %.6f dB, exact %.6Lf dB", nc, t2, a, ex);
      if (e[nc] != 7) M.viol ("overrun", idx, "more than %d coefficients written", nc);
      if (ex < 185) coefs_ok ("order", e.data(), nc, idx) && response_ok ("order", e.data(), nc, double (ex) - (ex > 15 ? 0.02 : 0.5), t2, idx);
    }
  M.eval (mix (mix (idx, n), nc), true, 2);
  if (idx % 500 == 3) M.sample ("attenuation %.3f dB, transition %.5f: %d coefficients, exact attenuation %.3Lf dB", att, tbw, n, A);
}
static void gdelay (int idx)
{
  Rng g (mix (M.seed, idx + 2200));
  const int n = g.range (1, 20); std::vector<double> c (n);
  for (auto& v : c) v = g.below (20) ? g.uni() * 0.995 : 0;
  if (g.below (2)) std::sort (c.begin(), c.end());
  const double f = g.below (5) ? g.uni() * 0.499 : 0; const bool ph = g.below (2);
  M.at ("group delay|%d|f %.17g, %d coefficients", idx, f, n);
  const double got = D::compute_group_delay (c.data(), n, f, ph); const LD want = gd_num (c.data(), n, f, ph);
  if (!(std::fabs (got - want) <= 1e-9L * (1 + std::fabs (want)) + 4e-14L * want * want)) M.viol ("gdelay", idx, "%d coefficients, f = %g, phaser %d: group delay %.12g, derivative of the phase %.12Lg", n, f, ph, got, want);
  const double s = D::compute_group_delay (c[0], f, ph); const LD sw = gd_num (c.data(), 1, f, ph);
  if (!(std::fabs (s - sw) <= 1e-9L * (1 + std::fabs (sw)) + 4e-14L * sw * sw)) M.viol ("gdelay-cell", idx, "a = %.9g, f = %g, phaser %d: group delay %.12g, derivative of the phase %.12Lg", c[0], f, ph, s, sw);
  if (!(got >= 0)) M.viol ("gdelay-negative", idx, "negative group delay %g", got);
  M.eval (mix (mix (idx, n), 77), true, 2); M.stat ("group_delays", 2);
}
static void gdly (int idx)
{
  Rng g (mix (M.seed, idx + 2300));
  const int n = g.range (1, g.below (4) ? 12 : 30);  const double f = g.below (4) ? g.uni() * 0.49 : g.below (2) ? 0 : g.uni() * 0.05;
  double lb = 0.001, ub = 0.499, alb = 0.001, aub = 10000, prec = g.below (3) ? 1e-6 : std::pow (10, -1 - 8 * g.uni());
  if (g.below (2)) { lb = 0.002 + 0.3 * g.uni(); ub = lb + (0.495 - lb) * (0.05 + 0.9 * g.uni()); }
  if (g.below (3) == 0) { alb = 0.01 + 100 * g.uni(); aub = alb + 1 + 150 * g.uni(); }
  std::vector<double> cl (n), cu (n);
  D::compute_coefs_spec_order_tbw (cl.data(), n, lb); D::compute_coefs_spec_order_tbw (cu.data(), n, ub);
  const LD gl = gd_num (cl.data(), n, f, false), gu = gd_num (cu.data(), n, f, false);
  LD lo = std::min (gl, gu), hi = std::max (gl, gu);
  double target = g.below (4) ? double (lo + (hi - lo) * g.uni()) : double (hi * 1.4 * g.uni());
  if (!(target > 1e-6)) target = 0.1;
  std::vector<double> c (n + 4, 7); double att = -5, tb = -5;
  M.at ("design by group delay|%d|n %d delay %.17g f %.17g bounds %g %g %g %g prec %g", idx, n, target, f, alb, aub, lb, ub, prec);
  const int mode = g.below (4);
  int rc = D::compute_coefs_spec_order_gdly (c.data(), mode & 1 ? nullptr : &att, mode & 2 ? nullptr : &tb, n, target, f, prec, alb, aub, lb, ub);
  for (int i = 0; i < 4; i++) if (c[n + i] != 7) { M.viol ("overrun", idx, "more than %d coefficients written", n); return; }
  const bool inside = target > lo + 1e-5 * (1 + lo) && target < hi - 1e-5 * (1 + hi), outside = target < lo - 1e-5 * (1 + lo) || target > hi + 1e-5 * (1 + hi);
  M.stat (rc == 0 ? "designs_by_group_delay" : rc == -1 ? "failures_reported_delay" : rc == -2 ? "failures_reported_attenuation" : "failures_reported_convergence", 1);
  M.eval (mix (mix (idx, n), 99 + rc));
  const std::string what = "n " + std::to_string (n) + ", delay " + std::to_string (target) + " at " + std::to_string (f);
  if (rc == 0)
    {
      const LD m = gd_num (c.data(), n, f, false);
      if (!(std::fabs (m - target) <= prec * 1.001L + 1e-10L + 4e-14L * m * m)) { M.viol ("gdly-miss", idx, "%s: delay %.12Lg, wanted within %g", what.c_str(), m, prec); return; }
      if (outside) M.viol ("gdly-outside", idx, "%s: success, but the bounds allow %.6Lg..%.6Lg only", what.c_str(), lo, hi);
      coefs_ok ("gdly", c.data(), n, idx);
      // the transition bandwidth that belongs to these coefficients (the first coefficient grows with it... find by search on the reported value)
      if (!(mode & 2))
        {
          if (!(tb >= lb && tb <= ub)) { M.viol ("gdly-tbw", idx, "%s: transition %g outside %g..%g", what.c_str(), tb, lb, ub); return; }
          std::vector<double> e (n); D::compute_coefs_spec_order_tbw (e.data(), n, tb);
          for (int i = 0; i < n; i++) if (!(std::fabs (e[i] - c[i]) < 1e-12)) { M.viol ("gdly-coefs", idx, "%s: coefficients do not belong to the reported transition %g", what.c_str(), tb); return; }
          const LD ex = exact_atten (n, tb);
          if (!(mode & 1) && !(std::fabs (att - ex) < (ex > 15 ? 0.05 : 1.5))) M.viol ("gdly-atten", idx, "%s: attenuation reported %.6f, is %.6Lf", what.c_str(), att, ex);
          if (ex > 15 && (ex < alb - 0.05 || ex > aub + 0.05)) M.viol ("gdly-bounds", idx, "%s: attenuation %.4Lf outside %g..%g", what.c_str(), ex, alb, aub);
        }
      if (!(mode & 1) && (att < alb || att > aub)) M.viol ("gdly-bounds", idx, "%s: attenuation %.4f outside %g..%g", what.c_str(), att, alb, aub);
    }
  else
    {
      if (rc != -1 && rc != -2 && rc != -3) M.viol ("gdly-code", idx, "%s: result code %d", what.c_str(), rc);
      if (rc == -1 && inside) M.viol ("gdly-refused", idx, "%s: refused, but the bounds allow delays %.6Lg..%.6Lg", what.c_str(), lo, hi);
      if (rc == -2 && outside) M.viol ("gdly-code2", idx, "%s: attenuation failure, but the delay cannot be reached (%.6Lg..%.6Lg)", what.c_str(), lo, hi);
      if (rc == -2) { LD a1 = exact_atten (n, lb), a2 = exact_atten (n, ub); if (a1 > alb + 1 && a2 < aub - 1 && a2 > a1) M.viol ("gdly-atten-refused", idx, "%s: attenuation refused, but everything from %.3Lf to %.3Lf dB is inside %g..%g", what.c_str(), a1, a2, alb, aub); }
      if (rc == -3 && prec > 1e-8) M.viol ("gdly-conv", idx, "%s: no convergence to %g", what.c_str(), prec);
    }
}
int main (int argc, char **argv)
{
  M.init (argc, argv, "C21");
  const int R = M.thorough ? 200000 : 10000;
  for (int i = 0; i < R; i++) if (M.mine (i)) { spec (i); gdelay (i); gdly (i); }
  return M.finish();
}
