// C08 (mode=fir) / C09 (mode=iir): frequency response. Oracles: spectrum of the measured impulse response on a dense grid,
// and online monitoring of tone streams (amplitude, phase, residual) in random blocks.
#include "resplim.hh"
using namespace mon;
static Mon M;

static bool image (double f) { double g = std::fabs (f - std::floor (f + 0.5)); return f > 0.5 && g <= FP + 1e-9; }

static void response (const Cfg& c, Rng& g, int round)
{
  const std::string nm = c.name();
  auto r = c.make();
  const double dh = delay_high (c, r->delay());
  Response m = measure (c, resp_units (c), round ? &g : nullptr, round ? std::ldexp (1.0f, g.range (-40, 40)) : 1.0f);
  // shorten the tail that does not matter
  while (m.h.size() > 64 && std::fabs (m.h.back()) < 1e-13) m.h.pop_back();
  const double pl = std::pow (10, fir_pass_db (c) / 20), sl = std::pow (10, stop_db (c) / 20), gl = gain_max (c);
  const int N = M.thorough ? 4000 : 700;
  double wp = 0, wpf = 0, ws = 0, wsf = 0, wg = -1, wgf = 0;
  auto look = [&] (double f)
    {
      auto h = H (c, m, f); double a = std::abs (h);
      if (f <= FP + 1e-12)
        {
          double e = c.fir() ? std::abs (h * std::polar (1.0, 2 * M_PI * f / c.ratio * dh) - 1.0) : std::fabs (a - 1);
          if (!(e <= wp)) { wp = e; wpf = f; }
        }
      if (image (f) && !(a <= ws)) { ws = a; wsf = f; }
      if (!(a - 1 <= wg)) { wg = a - 1; wgf = f; }
      M.stat ("frequencies_measured", 1);
    };
  for (int i = 0; i <= N; i++) look (FP * i / N);
  for (int i = 0; i <= N * int (c.ratio); i++) look (0.5 * c.ratio * (i + (i && i < N ? g.uni() - 0.5 : 0)) / (N * c.ratio));
  for (double k = 1; k <= c.ratio / 2; k++) { look (k - FP); if (k + FP < c.ratio / 2) look (k + FP); look (k); }
  if (!(wp <= (c.fir() ? pl : iir_amp (c))))
    M.viol ("passband:" + nm, c.index, "%s: error %.2f dB at %.1f Hz (allowed %.2f dB)", nm.c_str(), 20 * std::log10 (wp), wpf * 44100, 20 * std::log10 (c.fir() ? pl : iir_amp (c)));
  if (!(ws <= sl))
    M.viol ("stopband:" + nm, c.index, "%s: %s at %.1f Hz attenuated by %.2f dB only (required %.2f dB)", nm.c_str(), c.up() ? "image" : "alias", wsf * 44100, -20 * std::log10 (ws), -20 * std::log10 (sl));
  if (!(wg <= gl)) M.viol ("gain:" + nm, c.index, "%s: gain %.9g at %.1f Hz", nm.c_str(), 1 + wg, wgf * 44100);
  M.statmax ("margin_passband_dB", 20 * std::log10 (wp / (c.fir() ? pl : iir_amp (c)))); M.statmax ("margin_stopband_dB", 20 * std::log10 (ws / sl)); M.statmax ("max_gain_minus_1_over_limit", wg / gl);
  M.eval (mix (c.index, round));
  if (!round) M.sample ("%s: pass band error %.2f dB, %s %.2f dB, max gain 1%+.2g on %d frequencies", nm.c_str(), 20 * std::log10 (wp), c.up() ? "images" : "aliases", 20 * std::log10 (ws), wg, N * int (c.ratio + 1));
  if (!c.fir())
    { // stability: response decays, worst case bounded input stays below the absolute sum
      Response l = measure (c, 3000); double sum = 0, tail = 0;
      for (size_t i = 0; i < l.h.size(); i++) { sum += std::fabs (l.h[i]); if (i > 2000u * c.ratio) tail = std::max (tail, std::fabs (l.h[i])); }
      const double S = c.up() ? sum : sum;      // up: every phase uses a part of it only
      if (!(tail < 1e-12) || !(S < 40 * c.ratio)) M.viol ("unstable:" + nm, c.index, "%s: impulse response does not decay (tail %.3g, absolute sum %.3g)", nm.c_str(), tail, sum);
      vf x (6000 * c.in_per()), y (6000 * c.out_per()); double mx = 0;
      auto t = c.make();
      for (int kind = 0; kind < 3; kind++)
        {
          for (size_t i = 0; i < x.size(); i++)
            {
              if (kind == 0) x[i] = g.below (2) ? 1 : -1;
              else { size_t back = x.size() - 1 - i; if (c.up()) back *= c.ratio; x[i] = back < l.h.size() ? (l.h[back] < 0 ? -1 : 1) : 0; if (kind == 2) x[i] = -x[i]; }
            }
          run_all (*t, c, x.data(), 6000, y.data(), random_sizes (g, 6000, 500));
          for (float v : y) mx = std::max (mx, std::isfinite (v) ? double (std::fabs (v)) : 1e30);
        }
      M.statmax ("worst_case_output_for_unit_input", mx);
      if (!(mx <= S * 1.001 + 1e-3)) M.viol ("unbounded:" + nm, c.index, "%s: output %.3g for input bounded by 1 (absolute sum of the response %.3g)", nm.c_str(), mx, S);
    }
}

// tone streams
static void tones (const Cfg& c, Rng& g, int round)
{
  const std::string nm = c.name();
  auto r = c.make();
  const double d = r->delay();
  const size_t U = M.thorough ? 30000 : 5000, skip = c.fir() ? c.fir_mem() + 4 : 900;
  const float amp = round % 3 == 2 ? std::ldexp (1.0f, g.range (-50, 50)) : 1.0f;
  const bool alias = !c.up() && round % 2 == 1;
  const double pl = std::pow (10, fir_pass_db (c) / 20), sl = std::pow (10, stop_db (c) / 20);
  const int T = c.fir() && !alias ? 1 + g.below (6) : 1;
  std::vector<double> f, ph, a;
  double A = 0;
  for (int i = 0; i < T; i++)
    {
      double fr = 0.0005 + g.uni() * (FP - 0.0005);
      if (g.below (4) == 0) fr = FP; else if (g.below (6) == 0) fr = 0.0003;
      if (alias) { do fr = 0.5 + g.uni() * (0.5 * c.ratio - 0.5); while (!image (fr)); if (g.below (3) == 0) fr = 1 - FP; }
      f.push_back (fr); ph.push_back (g.uni() * 7); a.push_back (amp * (0.3 + g.uni())); A += a.back();
    }
  vf x (U * c.in_per()), y (U * c.out_per());
  for (size_t i = 0; i < x.size(); i++) { double s = 0; for (int k = 0; k < T; k++) s += a[k] * std::sin (2 * M_PI * f[k] * i / c.in_per() + ph[k]); x[i] = s; }
  std::vector<u32> sched = random_sizes (g, U, 1u << g.range (1, 11));
  M.at ("%s|%d|tone %.1f Hz", nm.c_str(), c.index, f[0] * 44100);
  run_all (*r, c, x.data(), U, y.data(), sched);
  double worst = 0, lim = 0; const int nim = c.ratio - 1;
  if (alias) { for (size_t i = skip; i < y.size(); i++) worst = std::max (worst, std::fabs (double (y[i]))); lim = sl * A + 1.2e-6 * A; }
  else if (c.fir())
    {
      const double hr = c.up() ? c.ratio : 1;
      for (size_t i = skip * c.out_per(); i < y.size(); i++)
        {
          double s = 0; for (int k = 0; k < T; k++) s += a[k] * std::sin (2 * M_PI * f[k] * (i - d) / hr + ph[k]);
          double e = std::fabs (y[i] - s); if (!(e <= worst)) worst = e;
        }
      lim = A * (pl + (c.up() ? nim * sl : 0) + 1.4e-6);
    }
  else
    { // least squares fit of amplitude and phase
      const double w = 2 * M_PI * f[0] / (c.up() ? c.ratio : 1);
      double cc = 0, cs = 0, ss = 0, yc = 0, ys = 0;
      for (size_t i = skip * c.out_per(); i < y.size(); i++)
        { double C = std::cos (w * i), S = std::sin (w * i); cc += C * C; cs += C * S; ss += S * S; yc += y[i] * C; ys += y[i] * S; }
      double det = cc * ss - cs * cs, p = (yc * ss - ys * cs) / det, q = (ys * cc - yc * cs) / det;
      for (size_t i = skip * c.out_per(); i < y.size(); i++)
        { double e = std::fabs (y[i] - p * std::cos (w * i) - q * std::sin (w * i)); if (!(e <= worst)) worst = e; }
      double ea = std::fabs (std::sqrt (p * p + q * q) - a[0]);
      lim = A * ((c.up() ? nim * sl : 0) + 2e-6);
      double la = A * (iir_amp (c) + 2e-6 + (c.up() ? sl * 0.02 : 0));
      M.statmax ("tone_amplitude_error_over_limit", ea / la);
      if (!(ea <= la)) { M.viol ("tone-amplitude:" + nm, c.index, "%s: tone of %.2f Hz: amplitude %.9g, expected %.9g", nm.c_str(), f[0] * 44100, std::sqrt (p * p + q * q), a[0]); return; }
    }
  M.statmax ("tone_residual_over_limit", worst / lim);
  M.stat ("tone_samples", y.size()); u64 h = 0; for (double v : f) h = mix (h, u64 (v * 1e12)); M.eval (mix (mix (c.index, h), 9));
  if (!(worst <= lim))
    M.viol ((alias ? "alias-tone:" : "tone:") + nm, c.index, "%s: %d tone(s), first %.2f Hz, amplitude sum %.4g: %s %.4g (allowed %.4g)", nm.c_str(), T, f[0] * 44100, A, alias ? "output reaches" : "error reaches", worst, lim);
}

int main (int argc, char **argv)
{
  bool fir = false; for (int i = 1; i < argc; i++) if (!strcmp (argv[i], "mode=fir")) fir = true;
  M.init (argc, argv, fir ? "C08" : "C09");
  for (auto& c : all_cfgs())
    if (c.fir() == fir && M.mine (c.index))
      {
        Rng g (mix (M.seed, c.index + 81));
        M.at ("%s|%d|response", c.name().c_str(), c.index);
        for (int k = 0; k < (M.thorough ? 8 : 4); k++) response (c, g, k);
        for (int k = 0; k < (M.thorough ? 400 : 80); k++) tones (c, g, k);
      }
  return M.finish();
}
