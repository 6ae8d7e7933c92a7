// C20: IIR responses against the minimal elliptic half-band designs (design.inc, computed independently in high precision).
#include "resp.hh"
using namespace mon;
static Mon M;
static void check_cfg (const Cfg& c)
{
  Rng g (mix (M.seed, c.index + 201));
  const std::string nm = c.name();
  M.at ("%s|%d|delay", nm.c_str(), c.index);
  // reported delay and order
  {
    double d = 0;
    if (c.up()) for (unsigned s = 2; s <= c.ratio; s *= 2) d += d + c.iir_stage (s)->gd;
    else { double k = 1; for (unsigned s = 2; s <= c.ratio; s *= 2, k /= 2) d += (c.iir_stage (s)->gd - 1) / 2 * k; }
    // on the way down, the last stage is the one with the low rate
    auto r = c.make();
    M.statmax ("worst_delay_difference", std::fabs (r->delay() - d)); M.eval (mix (c.index, 1));
    if (!(std::fabs (r->delay() - d) < 1e-5)) M.viol ("delay:" + nm, c.index, "%s: delay() = %.9g, the design has %.9g", nm.c_str(), r->delay(), d);
    M.sample ("%s: delay() = %.7g, design %.7g", nm.c_str(), r->delay(), d);
    const unsigned n = c.iir_stage (2)->nc; const unsigned o = r->order(); M.eval (mix (c.index, 2));
    if (o != n && o != 2 * n + 1 && o != 2 * n) M.stat ("other_order_convention", 1);
  }
  for (int k = 0; k < (M.thorough ? 500 : 120); k++)
    {
      const size_t U = k < 20 ? 900 : 300 + g.below (4000);
      vf x (U * c.in_per(), 0.0f);
      if (k < 20) x[k < int (2 * c.in_per()) ? k : g.below (x.size())] = k % 2 ? 1.0f : std::ldexp (g.sym() + 1.5f, g.range (-20, 20));
      else if (k % 2) for (auto& v : x) v = g.sym();
      else x = mixed_signal (g, x.size(), 40);
      vf y (U * c.out_per()); auto r = c.make();
      M.at ("%s|%d|stream %d", nm.c_str(), c.index, k);
      run_all (*r, c, x.data(), U, y.data(), random_sizes (g, U, 1u << g.range (1, 10)));
      Out o = model (c, x.data(), U);
      Cmp m = compare (y.data(), o.y.data(), o.b.data(), y.size(), 40);
      M.statmax ("worst_stream_error_ulps", m.worst); M.stat ("samples_compared", y.size());
      M.eval (mix (mix (c.index, k), U), true, 1);
      if (!m.ok) { M.viol ((k < 20 ? "impulse:" : "stream:") + nm, c.index, "%s: output[%zu] = %.9g, the design gives %.9g (allowance %.3g)", nm.c_str(), m.at, m.a, m.r, m.t); return; }
    }
}
int main (int argc, char **argv)
{
  M.init (argc, argv, "C20");
  if (M.mode == "delays")     // for the comparison with the output of the design program
    {
      for (int p : { 8, 12, 16, 20, 24 }) for (unsigned r : { 2u, 4u, 8u })
        printf ("%d %u %.12g %.12g\n", p, r, Resampler2 (Resampler2::UP, r, Resampler2::Precision (p), true, Resampler2::FILTER_IIR).delay(), Resampler2 (Resampler2::DOWN, r, Resampler2::Precision (p), true, Resampler2::FILTER_IIR).delay());
      return 0;
    }
  for (auto& c : all_cfgs()) if (!c.fir() && M.mine (c.index)) check_cfg (c);
  return M.finish();
}
