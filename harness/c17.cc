// C17: FIR output depends on a bounded window of the input. Oracle: two streams that differ in some samples, compared
// outside the window computed from the documented filter lengths.
#include "mon.hh"
using namespace mon;
static Mon M;
struct Win { long lo, hi; };
// output window for input samples [lo, hi]; slack = samples added on both sides at the low rate side of every stage
static Win window (const Cfg& c, Win w, int slack)
{
  auto up = [&] (unsigned s) { const int N = c.fir_stage (s)->n; w.lo -= slack; w.hi += slack; w = { 2 * w.lo, 2 * (w.hi + N - 1) + 1 }; };
  auto down = [&] (unsigned s) { const int N = c.fir_stage (s)->n; w.lo -= 2 * slack; w.hi += 2 * slack; w = { w.lo < 0 ? -1 : w.lo / 2, w.hi / 2 + N - 1 }; };
  if (c.up()) for (unsigned s = 2; s <= c.ratio; s *= 2) up (s); else for (unsigned s = c.ratio; s >= 2; s /= 2) down (s);
  return w;
}
static void check_cfg (const Cfg& c)
{
  Rng g (mix (M.seed, c.index + 171));
  const int R = M.thorough ? 20000 : 900; const std::string nm = c.name();
  static const char *kinds[] = { "finite", "large", "denormal", "zero", "NaN", "+Inf", "-Inf", "NaN payload" };
  for (int k = 0; k < R; k++)
    {
      const size_t U = k % 40 == 0 ? 3000 + g.below (8000) : 150 + g.below (400), n = U * c.in_per();
      vf x (n);
      if (g.below (3)) for (auto& v : x) v = g.sym(); else x = mixed_signal (g, n, 30);
      vf z = x;
      const int kind = g.below (8); const bool bad = kind >= 4;
      // one changed sample, or a burst
      const size_t p = g.below (4) ? g.below (n - n / 3) : g.below (std::min<size_t> (n, 60)); size_t q = p;
      if (g.below (4) == 0) q = std::min (n - 1, p + g.below (100));
      for (size_t i = p; i <= q; i++)
        z[i] = kind == 0 ? g.sym() * 2 + 5 : kind == 1 ? std::ldexp (g.sym(), 90) : kind == 2 ? fbits (1 + g.below (0x7ffffe)) : kind == 3 ? 0.0f : kind == 4 ? NAN : kind == 5 ? INFINITY : kind == 6 ? -INFINITY : fbits (0xffc00000u + g.below (99999));
      M.at ("%s|%d|change %zu..%zu of %zu input samples to %s", nm.c_str(), c.index, p, q, n, kinds[kind]);
      std::vector<u32> s = g.below (3) ? random_sizes (g, U, 1u << g.range (1, 10)) : std::vector<u32>();
      Buf i1 (n, 0), i2 (n, 0), o1 (U * c.out_per(), 0), o2 (U * c.out_per(), 0);
      const unsigned off = g.below (4); (void) off;
      std::copy (x.begin(), x.end(), i1.p); std::copy (z.begin(), z.end(), i2.p);
      auto a = c.make(), b = c.make();
      run_all (*a, c, i1.p, U, o1.p, s); run_all (*b, c, i2.p, U, o2.p, s);
      const Win w = window (c, { long (p), long (q) }, bad ? 8 : 0);
      long inside = 0;
      for (long i = 0; i < long (o1.n); i++)
        {
          if (i >= w.lo && i <= w.hi) { inside += o1.p[i] != o2.p[i]; continue; }
          if (!(o1.p[i] == o2.p[i]))
            {
              M.viol (std::string (i < w.lo ? "before:" : bad ? "damage:" : "after:") + nm, c.index, "%s: %s at input %zu..%zu: output[%ld] = %.9g instead of %.9g, affected window is %ld..%ld", nm.c_str(), kinds[kind], p, q, i, o2.p[i], o1.p[i], w.lo, w.hi);
              return;
            }
        }
      M.stat ("samples_outside_window_compared", double (o1.n)); M.stat ("samples_affected", inside);
      M.eval (mix (mix (c.index, p * 8 + kind), mix (q, U)), inside > 0);
      if (k == 3) M.sample ("%s: input %zu..%zu changed to %s: %ld outputs differ, all inside %ld..%ld", nm.c_str(), p, q, kinds[kind], inside, w.lo, w.hi);
    }
}
int main (int argc, char **argv)
{
  M.init (argc, argv, "C17");
  for (auto& c : all_cfgs()) if (c.fir() && M.mine (c.index)) check_cfg (c);
  return M.finish();
}
