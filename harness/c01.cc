// C01: the output stream does not depend on how the input stream is cut into blocks, nor on buffer alignment.
// Oracle: the same stream fed one unit at a time into a fresh instance (self-derived canonical history).
#include "mon.hh"
using namespace mon;

static Mon M;

static const char *mode_name[] = { "contiguous", "bounce-fixed-buffer", "fresh-misaligned-buffers" };

static bool
run_sched (const Cfg& c, Resampler2& r, const vf& x, const vf& ref, const vd& b, size_t units, const std::vector<u32>& sched, int how, Rng& g, const char *what, bool repeat)
{
  const unsigned ip = c.in_per(), op = c.out_per();
  Buf out (units * op, how == 0 ? g.below (4) : 0);
  u32 mx = 0; for (u32 s : sched) mx = std::max (mx, s);
  mx = std::min<size_t> (mx, units);
  Buf bin, bout, cin;
  if (how == 1) { bin.alloc (mx * ip + 4); bout.alloc (mx * op + 4); }
  if (how == 0) { cin.alloc (units * ip, g.below (4)); std::copy (x.begin(), x.begin() + units * ip, cin.p); }
  size_t u = 0, k = 0, calls = 0; u64 h = hash_str (what);
  u32 prev = 0;
  while (u < units && (repeat || k < sched.size()))
    {
      u32 n = std::min<size_t> (sched[k++ % sched.size()], units - u);
      h = mix (h, n); calls++;
      if (how == 0)
        r.process_block (cin.p + u * ip, n * ip, out.p + u * op);
      else if (how == 1)
        {
          float *pi = bin.p + g.below (4), *po = bout.p + g.below (4);
          std::copy (&x[u * ip], &x[u * ip] + n * ip, pi);
          r.process_block (pi, n * ip, po);
          std::copy (po, po + n * op, out.p + u * op);
        }
      else
        {
          Buf i2 (n * ip, g.below (4)), o2 (n * op, g.below (4));
          std::copy (&x[u * ip], &x[u * ip] + n * ip, i2.p);
          r.process_block (i2.p, n * ip, o2.p);
          std::copy (o2.p, o2.p + n * op, out.p + u * op);
        }
      if (prev && n) M.stat ("adjacent_nonempty_block_pairs", 1);
      if (!n) M.stat ("zero_length_calls", 1);
      prev = n;
      u += n;
    }
  M.stat ("calls", calls); M.stat ("units", u);
  M.statmax ("largest_block_units", mx);
  M.eval (mix (mix (h, c.index), how), u > 0 && calls > 1);
  Cmp k2 = compare (out.p, ref.data(), b.data(), u * op);
  M.statmax (c.fir() ? "worst_rounding_difference_fir_ulps" : "worst_rounding_difference_iir_ulps", k2.worst);
  if (!k2.ok)
    {
      M.viol ("partition:" + c.name() + ":" + what, c.index, "%s: schedule %s (%s, %zu calls): output[%zu]=%.9g but one-unit-at-a-time gives %.9g (tolerance %.3g)",
              c.name().c_str(), what, mode_name[how], calls, k2.at, k2.a, k2.r, k2.t);
      return false;
    }
  if (!out.canary_ok())
    { M.viol ("canary:" + c.name(), c.index, "%s: schedule %s wrote outside the output buffer", c.name().c_str(), what); return false; }
  return true;
}

static void
check_cfg (const Cfg& c)
{
  Rng g (mix (M.seed, c.index + 100));
  const size_t U = MON_SLOW ? 20000 : M.thorough ? 3000000 : 260000;
  const unsigned ip = c.in_per(), op = c.out_per();
  vf x = mixed_signal (g, U * ip, 50);
  vf ref (U * op);
  M.at ("%s|%d|canonical", c.name().c_str(), c.index);
  {
    auto r = c.make();
    // fixed, aligned buffers
    Buf i (ip), o (op);
    for (size_t u = 0; u < U; u++)
      {
        std::copy (&x[u * ip], &x[u * ip] + ip, i.p);
        r->process_block (i.p, ip, o.p);
        std::copy (o.p, o.p + op, &ref[u * op]);
      }
  }
  for (float v : ref)
    if (!std::isfinite (v)) { M.viol ("nonfinite:" + c.name(), c.index, "%s: non-finite output for a finite input stream", c.name().c_str()); return; }
  vd b = bound (c, x.data(), U);

  auto run = [&] (const std::vector<u32>& s, int how, const char *what, bool repeat = true, size_t units = 0)
    {
      M.at ("%s|%d|schedule %s", c.name().c_str(), c.index, what);
      auto r = c.make();
      run_sched (c, *r, x, ref, b, units ? units : U, s, how, g, what, repeat);
    };
  run ({ u32 (U) }, 0, "one-block");
  run ({ u32 (U) }, 2, "one-block-misaligned");
  run ({ 1 }, 0, "single-units");
  // all ordered pairs of small sizes, in pieces of the stream
  {
    const u32 S = MON_SLOW ? 14 : std::min (2 * c.order2() + 12, 118);
    std::vector<u32> p = all_pairs (S);
    size_t i = 0;
    while (i < p.size())
      {
        size_t sum = 0, j = i;
        while (j < p.size() && sum + p[j] <= U) sum += p[j++];
        if (j == i) break;
        std::vector<u32> part (p.begin() + i, p.begin() + j);
        run (part, g.below (2), "all-pairs", false);
        i = j < p.size() ? j - 1 : j;
        if (j < p.size() && p[j - 1] > U) break;
      }
    M.stat ("pair_sets_enumerated", 1);
  }
  // every size up to a few times the internal limits, and sizes programs like to use
  if (!MON_SLOW)
  {
    std::vector<u32> p;
    for (u32 n = 1; n <= (M.thorough ? 12500u : 4200u); n++) p.push_back (n);
    for (u32 n : { 4410u, 4800u, 5000u, 6000u, 6144u, 7168u, 8000u, 8191u, 8192u, 8193u, 8820u, 9600u, 10000u, 11025u, 12000u, 12288u, 16000u, 16383u, 16384u, 16385u, 17640u, 19200u, 20000u, 22050u, 24000u, 24576u, 32000u, 32767u, 32768u, 32769u, 44100u, 48000u, 50000u, 64000u, 65535u, 65536u, 65537u, 88200u, 96000u, 100000u, 131071u, 131072u, 131073u, 176400u, 192000u, 200000u, 250000u })
      { p.push_back (n); if (c.ratio > 2 && n % c.ratio == 0) p.push_back (n / c.ratio); }
    for (size_t i = p.size(); i > 1; i--) std::swap (p[i - 1], p[g.below (i)]);
    size_t i = 0, part = 0;
    while (i < p.size())
      {
        size_t sum = 0; std::vector<u32> s;
        while (i < p.size() && sum + p[i] <= U) { sum += p[i]; s.push_back (p[i++]); }
        run (s, part++ % 3, "every-size", false);
      }
    M.stat ("every_size_sets_enumerated", 1);
  }
  for (int how = 0; how < 3; how++)
    run (edge_sizes (g, c, how == 2 ? 5000 : 70000), how, "internal-limits");
  for (int i = 0; i < (M.thorough ? 40 : MON_SLOW ? 2 : 4); i++)
    {
      run (random_sizes (g, U / 2, 1u << g.range (2, 12)), i % 3, "random");
      run (random_sizes (g, U / 2, 64), (i + 1) % 3, "random-small");
    }
  for (int i = 0; i < (M.thorough ? 200 : MON_SLOW ? 2 : 10); i++)
    {
      u32 k = g.below (3) ? 1 + g.below (300) : (1u << g.below (13)) + g.below (3);
      run ({ k }, g.below (2), "constant-size", true, std::min<size_t> (U, 60000));
      u32 a = 1 + g.below (12), d = 1 + g.below (3000);
      run ({ a, d }, g.below (3), "alternating", true, std::min<size_t> (U, 60000));
    }
  // slow ramp up and down of the block size
  { std::vector<u32> s; for (u32 i = 0; i < 150; i++) s.push_back (i); for (u32 i = 150; i--;) s.push_back (i); run (s, 1, "ramp"); }
  M.sample ("%s: %zu units, schedules one-block, single units, all ordered pairs, internal limits, random, constant, alternating", c.name().c_str(), U);
}

// very large blocks and very long streams, a few configurations per seed
static void
big (const Cfg& c)
{
  Rng g (mix (M.seed, c.index + 7777));
  const size_t U = (c.ratio == 2 ? 16900000 : c.ratio == 4 ? 4300000 : 2150000);
  const unsigned ip = c.in_per(), op = c.out_per();
  vf x = noise_signal (g, U * ip), y1 (U * op), y2 (U * op);
  M.at ("%s|%d|big blocks", c.name().c_str(), c.index);
  auto a = c.make(), b = c.make();
  run_all (*a, c, x.data(), U, y1.data(), { u32 (U) });
  std::vector<u32> s; for (int i = 0; i < 50; i++) s.push_back (900 + g.below (200));
  run_all (*b, c, x.data(), U, y2.data(), s);
  // large sizes at and around powers of two and other round numbers
  vf y3 (U * op); auto d = c.make();
  std::vector<u32> t;
  for (u32 k = 16; k < 24; k++) for (u32 m : { 1u, 3u }) { const u32 n = (m << k) / ip; if (n > 60000) { t.push_back (n); if (k < 18) { t.push_back (n - 1); t.push_back (n + 1); } else t.push_back (n + g.below (3) - 1); } }
  for (u32 n : { 300000u, 384000u, 441000u, 480000u, 500000u, 960000u, 1000000u, 1323000u, 2646000u, 2880000u }) t.push_back (n);
  for (size_t i = t.size(); i > 1; i--) std::swap (t[i - 1], t[g.below (i)]);
  std::vector<u32> tt; size_t left = U; for (u32 n : t) if (n <= left) { tt.push_back (n); left -= n; if (left && g.below (2)) { tt.push_back (1); left--; } }
  if (left) tt.push_back (left);
  run_all (*d, c, x.data(), U, y3.data(), tt); M.stat ("large_blocks", tt.size());
  // in pieces, the bound is the same everywhere
  const size_t P = 1 << 16; vd bd (P, c.fir() ? 2.0 : 6.0);
  Cmp k {}; k.ok = true;
  for (size_t o = 0; o < y1.size() && k.ok; o += P) { k = compare (&y1[o], &y2[o], bd.data(), std::min (P, y1.size() - o)); k.at += o; }
  if (k.ok)
    {
      for (size_t o = 0; o < y3.size() && k.ok; o += P) { k = compare (&y3[o], &y2[o], bd.data(), std::min (P, y3.size() - o)); k.at += o; }
      if (!k.ok)
        { M.viol ("largeblocks:" + c.name(), c.index, "%s: blocks of %u, %u, %u.. units differ from ~1000-unit blocks at output[%zu]: %.9g vs %.9g", c.name().c_str(), tt[0], tt.size() > 1 ? tt[1] : 0, tt.size() > 2 ? tt[2] : 0, k.at, k.a, k.r); return; }
    }
  M.eval (mix (c.index, 999), true); M.statmax ("largest_block_units", U); M.stat ("units", 2 * U);
  if (!k.ok)
    M.viol ("bigblock:" + c.name(), c.index, "%s: one block of %zu units differs from ~1000-unit blocks at output[%zu]: %.9g vs %.9g", c.name().c_str(), U, k.at, k.a, k.r);
}

int
main (int argc, char **argv)
{
  M.init (argc, argv, "C01");
  for (auto& c : all_cfgs())
    if (M.mine (c.index))
      {
        check_cfg (c);
        if (!MON_SLOW) big (c);
      }
  return M.finish();
}
