// C04: SIMD == scalar == other instruction sets. mode=pair: on/off in one build; recorded outputs of every build are
// compared with each other in mode=cmp.
#include "mon.hh"
using namespace mon;
static Mon M;
static const size_t UD = 6000;

static vf dump_signal (const Cfg& c) { Rng g (mix (M.seed, 4000 + c.ratio * 10 + c.up())); return mixed_signal (g, UD * c.in_per(), 50); }

static void pair_cfg (const Cfg& c, const Cfg& s)
{
  Rng g (mix (M.seed, c.index + 41));
  const size_t U = M.thorough ? 1500000 : 120000;
  vf x = mixed_signal (g, U * c.in_per(), 50);
  vd b = bound (c, x.data(), U);
  const int rounds = M.thorough ? 20 : 5;
  for (int k = 0; k < rounds; k++)
    {
      M.at ("%s|%d|simd against scalar, round %d", c.name().c_str(), c.index, k);
      auto r1 = c.make(), r2 = s.make();
      std::vector<u32> sched = k == 0 ? std::vector<u32>() : k == 1 ? edge_sizes (g, c, 9000) : random_sizes (g, U, 1u << g.range (1, 12));
      Buf i1 (U * c.in_per(), g.below (4)), i2 (U * c.in_per(), g.below (4)), o1 (U * c.out_per(), g.below (4)), o2 (U * c.out_per(), g.below (4));
      std::copy (x.begin(), x.end(), i1.p); std::copy (x.begin(), x.end(), i2.p);
      run_all (*r1, c, i1.p, U, o1.p, sched);
      run_all (*r2, s, i2.p, U, o2.p, k & 1 ? sched : std::vector<u32>());
      Cmp r = compare (o1.p, o2.p, b.data(), o1.n);
      M.statmax (c.fir() ? "worst_difference_fir_ulps" : "worst_difference_iir_ulps", r.worst);
      M.stat ("samples_compared", o1.n);
      u64 h = 7; for (u32 v : sched) h = mix (h, v);
      M.eval (mix (h, c.index));
      if (!r.ok) { M.viol ("simd:" + c.name(), c.index, "%s: simd output[%zu]=%.9g, scalar %.9g (tolerance %.3g)", c.name().c_str(), r.at, r.a, r.r, r.t); return; }
    }
  M.sample ("%s against scalar, %zu units in %d block schedules and alignments", c.name().c_str(), U, rounds);
  // isolated impulses of any amplitude: each tap with its own relative accuracy
  for (int k = 0; k < 40; k++)
    {
      size_t n = 700;
      vf xi (n * c.in_per(), 0.0f); xi[g.below (200 * c.in_per())] = std::ldexp (g.sym() + 1.5f, g.range (-60, 60));
      vd bi = bound (c, xi.data(), n);
      auto r1 = c.make(), r2 = s.make();
      vf y1 (n * c.out_per()), y2 (y1.size());
      run_all (*r1, c, xi.data(), n, y1.data(), random_sizes (g, n, 100)); run_all (*r2, s, xi.data(), n, y2.data(), {});
      Cmp r = compare (y1.data(), y2.data(), bi.data(), y1.size());
      M.eval (mix (mix (c.index, k), 5)); M.stat ("impulses", 1);
      if (!r.ok) { M.viol ("simd-impulse:" + c.name(), c.index, "%s: impulse response: simd output[%zu]=%.9g, scalar %.9g", c.name().c_str(), r.at, r.a, r.r); return; }
    }
}

int main (int argc, char **argv)
{
  M.init (argc, argv, "C04");
  auto cs = all_cfgs();
  if (M.mode == "cmp")
    {
      // M.dump = directory with files <variant>
      const char *vs[] = { "gcc", "release", "clang", "ndebug", "portable", "neon", "sse41", "avx2", "avx512", "small" };
      int have = 0;
      std::vector<vf> d;
      size_t total = 0; for (auto& c : cs) total += UD * c.out_per();
      std::vector<std::string> names;
      for (auto v : vs)
        {
          FILE *f = fopen ((M.dump + "/dump_" + v).c_str(), "rb");
          if (!f) continue;
          vf x (total); size_t n = fread (x.data(), 4, total, f); fclose (f);
          if (n != total) { fprintf (stderr, "short dump %s\n", v); return 3; }
          d.push_back (x); names.push_back (v); have++;
        }
      if (have < 3) { fprintf (stderr, "only %d recorded builds\n", have); return 3; }
      size_t off = 0;
      for (auto& c : cs)
        {
          vf x = dump_signal (c); vd b = bound (c, x.data(), UD);
          for (int i = 1; i < have; i++)
            {
              Cmp r = compare (&d[i][off], &d[0][off], b.data(), UD * c.out_per());
              M.eval (mix (mix (c.index, i), 99)); M.stat ("cross_build_samples_compared", UD * c.out_per());
              M.statmax ("worst_difference_between_builds_ulps", r.worst);
              if (!r.ok) M.viol ("build:" + names[i] + ":" + c.name(), -1, "%s: build %s output[%zu]=%.9g, build %s %.9g", c.name().c_str(), names[i].c_str(), r.at, r.a, names[0].c_str(), r.r);
            }
          off += UD * c.out_per();
        }
      M.sample ("%d builds compared on all configurations", have);
      return M.finish();
    }
  const bool portable = M.variant == "portable", neon = M.variant == "neon";
  const bool avail = Resampler2::sse_available();
  if (avail != !portable) M.viol ("available:" + M.variant, -1, "build %s: SIMD available = %d", M.variant.c_str(), avail);
  for (int v = 0; v < 2; v++)
    for (int k = 0; k < 3; k++)
      if (!Resampler2::test_filter_impl (v)) M.viol ("selftest:" + M.variant, -1, "self test failed in build %s", M.variant.c_str());
  for (auto& c : cs)
    {
      auto r = c.make();
      bool want = c.sse && avail;
      if (neon && !c.fir()) want = r->sse_enabled() && c.sse;     // no IIR NEON code; the report is not specified
      if (r->sse_enabled() != want)
        M.viol ("enabled:" + c.name(), -1, "%s build %s: sse_enabled() = %d, expected %d", c.name().c_str(), M.variant.c_str(), r->sse_enabled(), want);
      std::vector<float> x (16 * c.in_per()), y (16 * c.out_per());
      r->process_block (x.data(), x.size(), y.data()); r->reset();
      if (r->sse_enabled() != want) M.viol ("enabled2:" + c.name(), -1, "%s: sse_enabled() changes", c.name().c_str());
      M.eval (mix (hash_str (M.variant), c.index));
    }
  if (M.mode == "dump")
    {
      FILE *f = fopen ((M.dump + "/dump_" + M.variant).c_str(), "wb");
      if (!f) return 3;
      for (auto& c : cs)
        {
          M.at ("%s|%d|recording in build %s", c.name().c_str(), c.index, M.variant.c_str());
          Rng g (mix (M.seed, c.index));
          vf x = dump_signal (c), y (UD * c.out_per());
          auto r = c.make();
          run_all (*r, c, x.data(), UD, y.data(), random_sizes (g, UD, 700));
          fwrite (y.data(), 4, y.size(), f);
        }
      fclose (f);
    }
  if (M.mode == "pair")
    for (size_t i = 0; i < cs.size(); i++)
      if (cs[i].sse && M.mine (cs[i].index)) pair_cfg (cs[i], cs[i - 1]);
  return M.finish();
}
