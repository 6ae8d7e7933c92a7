// C02: exact memory footprint of a call. Oracles: inaccessible pages around the buffers, read-only input,
// canaries, two different output pre-fills (unwritten slots), AddressSanitizer/UBSan in the sanitizer builds.
#include "mon.hh"
using namespace mon;
static Mon M;

static std::vector<u32> sizes (Rng& g, const Cfg& c, bool slow)
{
  std::vector<u32> s;
  for (u32 i = 0; i < (slow ? 130u : M.thorough ? 260u : 150u); i++) s.push_back (i);
  for (u32 p : { 256u, 511u, 512u, 1020u, 1023u, 1024u, 1025u, 1030u, 2047u, 2048u, 2049u, 3071u, 4095u, 4096u, 4099u })
    { s.push_back (p); s.push_back (p / c.ratio); s.push_back (p / c.ratio + 1); s.push_back (p + c.order2()); }
  for (int i = 0; i < (slow ? 20 : 60); i++) s.push_back (g.below (slow ? 3000 : 6000));
  if (!slow) s.push_back (20000 + g.below (9));
  if (!slow && M.thorough) s.push_back (70001);
  for (size_t i = s.size(); i > 1; i--) std::swap (s[i - 1], s[g.below (i)]);
  return s;
}

// contents of a block: mostly noise; also blocks of, with and ending with special values
static bool special (Rng& g, float *x, size_t n)
{
  static const float kinds[] = { NAN, INFINITY, -INFINITY, -0.f, 0.f, 1e-40f, 3e38f, 1.f, -1.f, 100.f };
  const float v = kinds[g.below (10)];
  const int how = g.below (8);
  if (how > 3 || !n) return false;
  if (how == 0) std::fill (x, x + n, v);
  if (how == 1) { x[n - 1] = v; if (n > 1) x[n - 2] = kinds[g.below (10)]; x[0] = kinds[g.below (10)]; }
  if (how == 2) for (size_t i = 0; i < n; i++) if (g.below (20) == 0) x[i] = kinds[g.below (10)];
  if (how == 3) for (size_t i = 0; i < n; i++) if (((i + 1) & 63) < 2 || g.below (200) == 0) x[i] = v;   // at the limits of pieces of any power of two
  return true;
}

// ---- page guards (normal builds)
static void guard_cfg (const Cfg& c)
{
  Rng g (mix (M.seed, c.index + 10));
  auto a = c.make(), b = c.make();
  int k = 0;
  for (int round = 0; round < (M.thorough ? 6 : 1); round++)
    for (u32 units : sizes (g, c, false))
      {
        u32 nin = units * c.in_per(), nout = units * c.out_per();
        bool ie = g.below (3) > 0, oe = g.below (3) > 0;
        unsigned si = 4 * g.below (5), so = 4 * g.below (5);
        M.at ("%s|%d|guard pages, %u input samples, input %s, output %s", c.name().c_str(), c.index, nin, ie ? "ends at page end" : "starts at page start", oe ? "ends at page end" : "starts at page start");
        Guard in (nin, ie, ie ? 0 : si), o1 (nout, oe, oe ? 0 : so), o2 (nout, oe, oe ? 0 : so);
        vf copy = noise_signal (g, nin);
        const bool sp = special (g, copy.data(), nin);
        if (sp) M.stat ("blocks_with_special_values", 1);
        std::copy (copy.begin(), copy.end(), in.p);
        // everything in the accessible part of the output pages around the block is a canary
        u32 A = 0x7fc0dead, B = 0xc2f00d55;
        for (char *q = o1.data; q < o1.data + o1.dlen; q += 4) memcpy (q, &A, 4);
        for (char *q = o2.data; q < o2.data + o2.dlen; q += 4) memcpy (q, &B, 4);
        in.readonly();
        a->process_block (in.p, nin, o1.p);
        b->process_block (in.p, nin, o2.p);
        for (u32 i = 0; i < nout; i++)
          if (bits (o1.p[i]) != bits (o2.p[i]))
            {
              bool unw = bits (o1.p[i]) == A || bits (o2.p[i]) == B;
              M.viol ("unwritten:" + c.name(), c.index, "%s: %u input samples: output sample %u of %u %s", c.name().c_str(), nin, i, nout, unw ? "is not written" : "depends on the previous content of the output buffer");
              return;
            }
        for (int w = 0; w < 2; w++)
          {
            Guard& o = w ? o2 : o1; u32 P = w ? B : A;
            for (float *q = (float *) o.data; q < (float *) (o.data + o.dlen); q++)
              if ((q < o.p || q >= o.p + nout) && bits (*q) != P)
                { M.viol ("overwrite:" + c.name(), c.index, "%s: %u input samples: wrote outside the output block at offset %ld (block has %u samples)", c.name().c_str(), nin, long (q - o.p), nout); return; }
          }
        if (memcmp (in.p, copy.data(), nin * 4)) { M.viol ("input:" + c.name(), c.index, "%s: input modified", c.name().c_str()); return; }
        M.eval (mix (mix (c.index, units), ie * 100 + oe * 200 + si + 16 * so), units > 0);
        M.stat ("guarded_calls", 2); M.stat ("output_slots_checked", nout);
        if (k++ == 5) M.sample ("%s: %u input samples, input %s page boundary, read-only; output %s page boundary", c.name().c_str(), nin, ie ? "before" : "after", oe ? "before" : "after");
        if (g.below (40) == 0 || (sp && g.below (4))) { a->reset(); b->reset(); }
      }
}

// ---- all pairs of small sizes and all sizes, with blocks that start or end at an inaccessible page
static void dense_cfg (const Cfg& c)
{
  Rng g (mix (M.seed, c.index + 15));
  const u32 L = 100000, W = 64;
  auto s = dense_sizes (g, c, 118, M.thorough ? 12500 : 4200, L);
  Guard in (size_t (L) * c.in_per() + W, false), out (size_t (L) * c.out_per() + W, false);
  const size_t ni = in.dlen / 4, no = out.dlen / 4; float *ib = (float *) in.data, *ob = (float *) out.data;
  for (size_t i = 0; i < ni; i++) ib[i] = g.sym();
  vf keep (ib, ib + ni);
  in.readonly();
  const u32 P = 0x7fc0dead; float pat; memcpy (&pat, &P, 4); std::fill (ob, ob + no, pat);
  for (int where = 0; where < 2; where++)
    {
      auto r = c.make(); u32 prev = 0;
      for (u32 units : s)
        {
          const u32 nin = units * c.in_per(), nout = units * c.out_per(), si = where ? 0 : g.below (4), so = g.below (4); const bool oe = (where == 1) == (g.below (8) > 0);
          const float *ip = where ? ib + ni - nin : ib + (g.below (3) ? 0 : si); float *op = oe ? ob + no - nout : ob + (g.below (3) ? 0 : so);
          M.at ("%s|%d|%u units after a block of %u, input %s page boundary, output %s", c.name().c_str(), c.index, units, prev, where ? "ends at" : "starts at", oe ? "ends at" : "starts at");
          r->process_block (ip, nin, op);
          for (u32 i = 0; i < nout; i++) if (bits (op[i]) == P) { M.viol ("dense-unwritten:" + c.name(), c.index, "%s: %u input samples after a block of %u units: output sample %u of %u is not written", c.name().c_str(), nin, prev, i, nout); return; }
          for (const float *q = std::max (ob, op - W); q < op; q++) if (bits (*q) != P) { M.viol ("dense-overwrite:" + c.name(), c.index, "%s: %u input samples after a block of %u units: wrote %ld samples before the output block", c.name().c_str(), nin, prev, long (op - q)); return; }
          for (const float *q = op + nout; q < std::min (ob + no, op + nout + W); q++) if (bits (*q) != P) { M.viol ("dense-overwrite:" + c.name(), c.index, "%s: %u input samples after a block of %u units: wrote behind the output block at offset %ld", c.name().c_str(), nin, prev, long (q - op)); return; }
          std::fill (op, op + nout, pat);
          prev = units; M.stat ("guarded_calls", 1);
          M.eval (mix (mix (c.index, units), mix (prev, where + 2 * oe + 50)), units > 0);
        }
    }
  if (memcmp (keep.data(), ib, ni * 4)) M.viol ("dense-input:" + c.name(), c.index, "%s: input modified", c.name().c_str());
  for (size_t i = 0; i < no; i++) if (bits (ob[i]) != P) { M.viol ("dense-overwrite:" + c.name(), c.index, "%s: wrote far outside the output blocks (offset %zu)", c.name().c_str(), i); break; }
  M.stat ("size_pair_sets", 2);
}

// ---- exactly sized heap blocks (sanitizer builds)
static void heap_cfg (const Cfg& c)
{
  Rng g (mix (M.seed, c.index + 20));
  auto a = c.make();
  for (u32 units : sizes (g, c, true))
    {
      u32 nin = units * c.in_per(), nout = units * c.out_per(), mi = g.below (4), mo = g.below (4);
      M.at ("%s|%d|exact heap blocks, %u input samples, offsets %u/%u", c.name().c_str(), c.index, nin, mi, mo);
      std::unique_ptr<float[]> in (new float[nin + mi]), out (new float[nout + mo]), keep (new float[nin + mi]);
      for (u32 i = 0; i < nin + mi; i++) in[i] = g.sym();
      special (g, in.get() + mi, nin);
      memcpy (keep.get(), in.get(), (nin + mi) * 4);
      a->process_block (in.get() + mi, nin, out.get() + mo);
      if (memcmp (in.get(), keep.get(), (nin + mi) * 4)) { M.viol ("input:" + c.name(), c.index, "%s: input modified", c.name().c_str()); return; }
      M.eval (mix (mix (c.index, units), mi * 4 + mo + 7000), units > 0);
      M.stat ("sanitized_calls", 1);
      if (g.below (60) == 0) { a->delay(); a->order(); a->sse_enabled(); a->reset(); }
      if (g.below (80) == 0) { std::unique_ptr<Resampler2> t (new Resampler2 (std::move (*a))); a = std::move (t); }
    }
  u32 prev = 0; vf src = noise_signal (g, size_t (M.thorough ? 4200 : 1100) * c.in_per());
  for (u32 units : dense_sizes (g, c, M.thorough ? 118 : 64, M.thorough ? 4200 : 1100, 0))
    {
      const u32 nin = units * c.in_per(), nout = units * c.out_per();
      M.at ("%s|%d|exact heap blocks, %u units after %u units", c.name().c_str(), c.index, units, prev);
      std::unique_ptr<float[]> in (new float[nin]), out (new float[nout]);
      memcpy (in.get(), src.data(), nin * 4);
      a->process_block (in.get(), nin, out.get());
      M.eval (mix (mix (c.index, units), mix (prev, 7777)), units > 0); M.stat ("sanitized_calls", 1);
      prev = units;
    }
}

// ---- blocks of 2^31 samples and more, on repeated mappings of a small memory
static float *tiled (u64 bytes, u64 tile, const std::vector<std::pair<u64,u64>>& priv, u64& mapped)
{
  mapped = (bytes + tile - 1) / tile * tile + tile;
  int fd = memfd_create ("tile", 0);
  if (fd < 0 || ftruncate (fd, tile) != 0) return nullptr;
  char *b = (char *) mmap (nullptr, mapped, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (b == MAP_FAILED) return nullptr;
  for (u64 o = 0; o < mapped; o += tile)
    {
      bool keep = false;
      for (auto& p : priv) if (o < p.second && o + tile > p.first) keep = true;
      if (!keep && mmap (b + o, tile, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) return nullptr;
    }
  close (fd);
  return (float *) b;
}
static bool huge (const Cfg& c, u64 nin)
{
  const u64 nout = nin / c.in_per() * c.out_per(), tile = 1 << 24;
  u64 mi, mo;
  float *in = tiled (nin * 4, tile, {}, mi);
  // own memory: the first tile, everything that lies at or behind 2^31 / 2^32 samples, the last tile
  std::vector<std::pair<u64,u64>> priv = { { 0, tile }, { nout * 4 - tile, nout * 4 + tile } };
  for (u64 l : { u64 (1) << 31, u64 (1) << 32 }) if (nout > l) priv.push_back ({ l * 4, l * 4 + tile });
  float *out = tiled (nout * 4, tile, priv, mo);
  if (!in || !out) { M.stat ("huge_blocks_not_possible", 1); return true; }
  Rng g (M.seed + c.index);
  const u64 period = tile / 4;
  for (u64 i = 0; i < period; i++) in[i] = g.sym() + 2;      // never 0
  M.at ("%s|%d|block of %llu samples", c.name().c_str(), c.index, (unsigned long long) nin);
  auto r = c.make();
  r->process_block (in, (unsigned) nin, out);
  // expected: fresh instance fed a bit earlier (all filters forget within 4096 units)
  bool ok = true;
  for (auto& p : priv)
    {
      u64 from = p.first / 4, to = std::min (p.second / 4, nout);
      u64 u0 = from / c.out_per(), u1 = (to - from > 200000 ? from + 200000 : to) / c.out_per();
      for (int half = 0; half < 2; half++)
        {
          if (half) { u1 = to / c.out_per(); u0 = u1 - 20000; }
          u64 w0 = u0 > 4096 ? u0 - 4096 : 0;
          auto f = c.make();
          vf x ((u1 - w0) * c.in_per()), y ((u1 - w0) * c.out_per());
          for (u64 i = 0; i < x.size(); i++) x[i] = in[w0 * c.in_per() + i];
          f->process_block (x.data(), x.size(), y.data());
          for (u64 i = (u0 - w0) * c.out_per(); i < y.size(); i++)
            {
              float got = out[w0 * c.out_per() + i];
              if (!(std::fabs (got - y[i]) < 1e-4))
                {
                  M.viol ("huge:" + c.name(), c.index, "%s: block of %llu input samples: output[%llu] = %g, expected %g", c.name().c_str(), (unsigned long long) nin, (unsigned long long) (w0 * c.out_per() + i), got, y[i]);
                  ok = false; goto done;
                }
              M.stat ("huge_output_samples_checked", 1);
            }
        }
    }
done:
  M.eval (mix (c.index, nin)); M.statmax ("largest_block_input_samples", nin);
  munmap (in, mi); munmap (out, mo);
  return ok;
}

int main (int argc, char **argv)
{
  M.init (argc, argv, "C02");
  auto cs = all_cfgs();
  if (M.mode == "huge")
    {
      struct J { bool up; unsigned ratio; int prec; bool sse, fir; u64 n; };
      const u64 G = u64 (1) << 31;
      std::vector<J> js = { { true, 2, 1, true, true, G + 4099 }, { true, 2, 1, false, true, G + 4099 }, { true, 2, 8, true, false, G + 4099 }, { false, 2, 1, true, true, 2 * G - 2 },
                            { true, 4, 8, true, true, G / 2 + 5001 }, { true, 8, 1, true, true, G / 4 + 777 }, { false, 8, 8, true, false, G + 8 * 999 }, { true, 2, 8, false, false, G + 777 }, { false, 2, 8, false, false, 2 * G - 1024 }, { false, 2, 8, true, false, 2 * G - 2 }, { false, 4, 1, false, true, 2 * G - 4 }, { true, 1, 1, true, true, G + 4099 } };
      if (M.thorough)
        for (int p : { 8, 24 }) for (int s = 0; s < 2; s++) for (int f = 0; f < 2; f++) for (unsigned r : { 2u, 4u, 8u })
          { js.push_back ({ true, r, p, s == 1, f == 1, std::min (2 * G - 1, 2 * G / (r / 2) + 12345) }); js.push_back ({ false, r, p, s == 1, f == 1, 2 * G - r }); }
      for (size_t i = 0; i < js.size(); i++)
        if (M.only >= 0 || int (i % M.nshard) == M.shard)
          {
            J& j = js[i];
            Cfg c { j.up ? Resampler2::UP : Resampler2::DOWN, j.ratio, j.prec, j.sse, j.fir ? Resampler2::FILTER_FIR : Resampler2::FILTER_IIR, int (i) + 1000 };
            if (M.only >= 0 && M.only != c.index) continue;
            huge (c, j.n);
          }
      return M.finish();
    }
  for (auto& c : cs)
    if (M.mine (c.index))
      {
        if (M.mode == "guard") guard_cfg (c); else if (M.mode == "dense") dense_cfg (c); else heap_cfg (c);
      }
  return M.finish();
}
