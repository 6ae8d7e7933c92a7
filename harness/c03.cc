// C03: reset == fresh. Oracle: a newly created twin fed the same blocks; bit-exact comparison.
#include "mon.hh"
using namespace mon;
static Mon M;

static void history (Resampler2& r, const Cfg& c, Rng& g, int kind, size_t units, std::string& d)
{
  vf x = mixed_signal (g, units * c.in_per(), 30);
  static const char *names[] = { "mixed", "nan", "inf", "huge", "denormal", "constant", "nan-burst" };
  switch (kind)
    {
    case 1: for (int i = 0; i < 3 && !x.empty(); i++) x[g.below (x.size())] = fbits (0x7fc00000 + g.below (1000)); break;
    case 2: for (int i = 0; i < 3 && !x.empty(); i++) x[g.below (x.size())] = g.below (2) ? INFINITY : -INFINITY; break;
    case 3: for (auto& v : x) v = v * 3e38f; break;
    case 4: for (auto& v : x) v = fbits (g.below (0x7fffff)); break;
    case 5: for (auto& v : x) v = 0.75f; break;
    case 6: for (auto& v : x) v = NAN; break;
    }
  vf y (units * c.out_per());
  std::vector<u32> s = g.below (3) ? random_sizes (g, units, 1u << g.range (1, 11)) : std::vector<u32>();
  run_all (r, c, x.data(), units, y.data(), s);
  char b[80]; snprintf (b, sizeof b, "%s %zu units", names[kind], units); d = b;
}

static void check_cfg (const Cfg& c)
{
  Rng g (mix (M.seed, c.index + 31));
  const size_t U = 2600;
  auto old = c.make();
  Buf bi (U * c.in_per(), 0), o1 (U * c.out_per(), 0), o2 (U * c.out_per(), 0);
  int life = 0;
  const int cases = M.thorough ? 3000 : 240;
  for (int k = 0; k < cases; k++)
    {
      if (k % 60 == 0) { old = c.make(); life = 0; }     // long chains of resets on one instance
      if (k % 60 == 30) for (int i = 0; i < 70000 && k == 30; i++) old->reset();
      int kind = g.below (7);
      size_t units = k < 140 ? size_t (k) : g.below (4) ? g.below (200) : g.below (3) ? 1000 + g.below (60) : g.below (12000);
      std::string d;
      M.at ("%s|%d|history before reset %d", c.name().c_str(), c.index, k);
      if (g.below (12)) history (*old, c, g, kind, units, d); else d = "none";
      if (g.below (4) == 0) { std::string d2; old->reset(); history (*old, c, g, g.below (7), g.below (100), d2); d += " + reset + " + d2; }
      old->reset();
      if (g.below (5) == 0) old->reset();
      life++;
      auto fresh = c.make();
      size_t n = k % 8 == 0 ? U : 60 + g.below (500);
      int sk = g.below (4);
      vf x (n * c.in_per());
      if (sk == 0) fill_segment (g, x.data(), x.size(), SIG_IMPULSE, 40);
      else if (sk == 1) std::fill (x.begin(), x.end(), 0.0f);
      else x = mixed_signal (g, x.size(), 40);
      std::copy (x.begin(), x.end(), bi.p);
      std::vector<u32> s = g.below (3) ? random_sizes (g, n, 1u << g.range (1, 9)) : std::vector<u32>();
      run_all (*old, c, bi.p, n, o1.p, s);
      run_all (*fresh, c, bi.p, n, o2.p, s);
      M.eval (mix (mix (c.index, k), mix (units, n)), d != "none" && units > 0);
      M.stat ("resets", 1); M.stat ("samples_compared", n * c.out_per());
      if (k == 5) M.sample ("%s: history %s, reset, then %zu units compared with a new instance", c.name().c_str(), d.c_str(), n);
      size_t w;
      if (!same_bits (o1.p, o2.p, n * c.out_per(), &w))
        {
          M.viol ("reset:" + c.name(), c.index, "%s: after history '%s' and reset() output[%zu]=%.9g, new instance gives %.9g", c.name().c_str(), d.c_str(), w, o1.p[w], o2.p[w]);
          return;
        }
      if (old->delay() != fresh->delay() || old->order() != fresh->order() || old->sse_enabled() != fresh->sse_enabled())
        { M.viol ("query:" + c.name(), c.index, "%s: queries differ after reset", c.name().c_str()); return; }
    }
  M.statmax ("histories_per_instance", life);
}
// numbers of resets: long lives in which every reset is checked, and many resets in a row
static void counts (const Cfg& c)
{
  Rng g (mix (M.seed, c.index + 33));
  const size_t H = 6, P = 3;
  vf hx (H * c.in_per()), hy (H * c.out_per()), px (P * c.in_per()), py (P * c.out_per()), pz (P * c.out_per()), qz (P * c.out_per());
  for (auto& v : hx) v = 0.5f + 0.4f * g.sym(); for (auto& v : px) v = g.sym();
  { auto f = c.make(); f->process_block (px.data(), px.size(), pz.data()); f->process_block (px.data(), px.size(), qz.data()); }
  auto test = [&] (Resampler2& r, const char *what, long n)
    {
      r.process_block (px.data(), px.size(), py.data());
      size_t w;
      M.stat ("resets", 1);
      if (!same_bits (py.data(), pz.data(), py.size(), &w))
        { M.viol ("count:" + c.name(), c.index, "%s: %s %ld: output[%zu]=%.9g, new instance gives %.9g", c.name().c_str(), what, n, w, py[w], pz[w]); return false; }
      r.process_block (px.data(), px.size(), py.data());
      if (!same_bits (py.data(), qz.data(), py.size(), &w))
        { M.viol ("count:" + c.name(), c.index, "%s: %s %ld, second block: output[%zu]=%.9g, new instance gives %.9g", c.name().c_str(), what, n, w, py[w], qz[w]); return false; }
      return true;
    };
  {
    auto r = c.make();
    M.at ("%s|%d|long life", c.name().c_str(), c.index);
    for (long i = 1; i <= (M.thorough ? 1100000 : MON_SLOW ? 300 : 66000); i++)
      {
        if (i % 7) r->process_block (hx.data(), hx.size(), hy.data());
        r->reset();
        if (!test (*r, "reset number", i)) return;
      }
    M.eval (mix (c.index, 331));
  }
  // one block of every length (alone, or behind a short one) before the reset
  {
    auto r = c.make(); const u32 L = 66000;
    vf lx = noise_signal (g, L * c.in_per()), ly (L * c.out_per());
    std::vector<u32> ns; for (u32 n = 1; n <= (M.thorough ? 8400u : 2100u); n++) ns.push_back (n);
    for (u32 n : dense_sizes (g, c, 0, 0, L)) if (n) ns.push_back (n);
    for (size_t i = ns.size(); i > 1; i--) std::swap (ns[i - 1], ns[g.below (i)]);
    M.at ("%s|%d|one block before the reset", c.name().c_str(), c.index);
    for (u32 n : ns)
      for (int two = 0; two < 2; two++)
        {
          if (two) r->process_block (lx.data(), (1 + g.below (60)) * c.in_per(), ly.data());
          r->process_block (lx.data(), n * c.in_per(), ly.data());
          r->reset(); M.eval (mix (mix (c.index, 335 + two), n));
          if (!test (*r, two ? "a short block and a block before the reset, length" : "one block before the reset, length", n)) return;
          r->reset();
        }
  }
  std::vector<long> row = { 127, 128, 129, 255, 256, 257, 512, 768, 1000, 1024, 4096, 32768, 65535, 65536, 65537, 131072 };
  if (M.thorough) { row.push_back (1 << 20); row.push_back (1 << 24); }
  for (long n : row)
    {
      auto r = c.make();
      M.at ("%s|%d|%ld resets in a row", c.name().c_str(), c.index, n);
      r->process_block (hx.data(), hx.size(), hy.data());
      const int kind = g.below (3);
      for (long i = 0; i < n; i++) { r->reset(); if (kind == 1) r->process_block (hx.data(), 0, hy.data()); if (kind == 2) r->delay(); }
      M.eval (mix (mix (c.index, 332), n));
      if (!test (*r, "resets in a row:", n)) return;
    }
}
int main (int argc, char **argv)
{
  M.init (argc, argv, "C03");
  for (auto& c : all_cfgs()) if (M.mine (c.index)) { check_cfg (c); counts (c); }
  return M.finish();
}
