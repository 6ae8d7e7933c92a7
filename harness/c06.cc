// C06: FIR upsampling copies every input sample to ratio*i + delay(). Oracle: bit comparison.
#include "mon.hh"
using namespace mon;
static Mon M;
static float any_finite (Rng& g)
{
  switch (g.below (6))
    {
    case 0: return g.sym();
    case 1: return fbits ((g.below (2) << 31) | g.below (0x800000));          // denormals and zeros
    case 2: return g.below (2) ? -0.0f : 0.0f;
    case 3: return std::ldexp (g.sym(), g.range (-126, 100));
    case 4: { u32 u; do u = u32 (g.next()); while (((u >> 23) & 255) == 255); return fbits (u); }
    default: return float (int (g.below (65536)) - 32768) / 32768;
    }
}
static void check_cfg (const Cfg& c)
{
  Rng g (mix (M.seed, c.index + 61));
  const int rounds = M.thorough ? 150 : 40;
  for (int k = 0; k < rounds; k++)
    {
      const size_t U = k == 0 ? (M.thorough ? 4000000 : 600000) : 60000;
      M.at ("%s|%d|copy round %d", c.name().c_str(), c.index, k);
      auto r = c.make();
      Buf x (U, g.below (4)), y (U * c.ratio, g.below (4));
      int kind = k % 4;
      for (size_t i = 0; i < U; i++) x.p[i] = kind == 0 ? g.sym() : kind == 1 ? any_finite (g) : kind == 2 ? std::ldexp (g.sym(), g.range (-140, -100)) : (i % 97 == 0 ? any_finite (g) : 0.0f);
      double d = r->delay();
      if (d != std::floor (d) || d < 0) { M.viol ("delay:" + c.name(), c.index, "%s: delay() = %g is not a sample position", c.name().c_str(), d); return; }
      std::vector<u32> s = k == 0 ? std::vector<u32> { u32 (U) } : k % 3 == 0 ? edge_sizes (g, c, 3000) : random_sizes (g, U, 1u << g.range (1, 13));
      run_all (*r, c, x.p, U, y.p, s);
      size_t D = d, n = 0; u64 h = 3;
      for (size_t i = 0; i * c.ratio + D < U * c.ratio; i++, n++)
        if (bits (x.p[i]) != bits (y.p[i * c.ratio + D]))
          {
            M.viol ("copy:" + c.name(), c.index, "%s: input[%zu] = %.9g (%08x), but output[%zu * %u + %zu] = %.9g (%08x)", c.name().c_str(), i, x.p[i], bits (x.p[i]), i, c.ratio, D, y.p[i * c.ratio + D], bits (y.p[i * c.ratio + D]));
            return;
          }
      for (size_t i = 0; i < std::min<size_t> (s.size(), 50); i++) h = mix (h, s[i]);
      M.eval (mix (mix (c.index, k), h), n > 0); M.stat ("samples_compared_bitwise", n);
      if (k == 1) M.sample ("%s: %zu samples of any finite value, delay %g", c.name().c_str(), n, d);
    }
}
int main (int argc, char **argv)
{
  M.init (argc, argv, "C06");
  for (auto& c : all_cfgs()) if (c.fir() && c.up() && M.mine (c.index)) check_cfg (c);
  return M.finish();
}
