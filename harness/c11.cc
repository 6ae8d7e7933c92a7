// C11: ratio 1 is a transparent resampler. Oracle: bit comparison of output and input, query monitors.
#include "mon.hh"
using namespace mon;
#include <sys/mman.h>
#include <unistd.h>
static Mon M;
// blocks of up to 2^32 - 1 samples: input and output are a small piece of memory mapped again and again (same size, so the
// order of the copy does not matter); the output has memory of its own at the end and around 2^31 and 2^32 bytes and samples
static const u64 TILE = 1 << 24;
static float *tiled (u64 bytes, bool out, u64& mapped)
{
  mapped = (bytes + TILE - 1) / TILE * TILE;
  int fd = memfd_create ("tile", 0);
  if (fd < 0 || ftruncate (fd, TILE) != 0) return nullptr;
  char *b = (char *) mmap (nullptr, mapped, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (b == MAP_FAILED) return nullptr;
  for (u64 o = 0; o < mapped; o += TILE)
    {
      bool own = out && (o == 0 || o + TILE == mapped);
      for (int k = 31; k <= 33 && out; k++) if (o == (u64 (1) << k) || o + TILE == (u64 (1) << k)) own = true;
      if (!own && mmap (b + o, TILE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) return nullptr;
    }
  close (fd);
  return (float *) b;
}
static void huge()
{
  const u64 sizes[] = { (u64 (1) << 29) + 3, (u64 (1) << 30) + 5, (u64 (1) << 31) - 1, (u64 (1) << 31) + 1, (u64 (1) << 32) - 1, (u64 (3) << 29) + 7, (u64 (1) << 24) + 1, (u64 (1) << 28) + 2 };
  for (int k = 0; k < 8; k++)
    {
      if (!M.mine (k)) continue;
      const u64 n = sizes[k];
      Rng g (mix (M.seed, 7000 + k));
      const int precs[] = { 1, 8, 12, 16, 20, 24 };
      Cfg c { g.below (2) ? Resampler2::DOWN : Resampler2::UP, 1, precs[g.below (6)], g.below (2) == 1, g.below (2) ? Resampler2::FILTER_IIR : Resampler2::FILTER_FIR, k };
      const std::string nm = c.name();
      u64 mi, mo;
      float *in = tiled (n * 4, false, mi), *out = tiled (n * 4, true, mo);
      if (!in || !out) { M.stat ("huge_skipped", 1); continue; }
      u32 *ui = (u32 *) in, *uo = (u32 *) out;
      for (u64 i = 0; i < TILE / 4; i++) ui[i] = u32 (g.next()) | 1;
      auto r = c.make();
      M.at ("%s|%d|block of %llu", nm.c_str(), k, (unsigned long long) n);
      r->process_block (in, u32 (n), out);
      M.eval (mix (n, 4711)); M.stat ("huge_samples", n);
      bool ok = true;
      auto cmp = [&] (u64 from) { for (u64 i = from; ok && i < std::min (from + TILE / 4, mo / 4); i++) { u32 want = i < n ? ui[i % (TILE / 4)] : 0; if (uo[i] != want) { ok = false; M.viol ("huge:" + nm, k, "%s: block of %llu: %s[%llu] = %08x instead of %08x", nm.c_str(), (unsigned long long) n, i < n ? "output" : "memory behind the output ", (unsigned long long) i, uo[i], want); } } };
      cmp (0); if (mo / TILE > 2) cmp (TILE / 4);
      for (u64 e : { u64 (1) << 31, u64 (1) << 32, u64 (1) << 33 }) if (e + TILE <= mo) { cmp (e / 4 - TILE / 4); cmp (e / 4); }
      cmp (mo / 4 - TILE / 4);
      munmap (in, mi); munmap (out, mo);
    }
}
int main (int argc, char **argv)
{
  M.init (argc, argv, "C11");
  if (M.mode == "huge") { huge(); return M.finish(); }
  const int precs[] = { 1, 8, 12, 16, 20, 24 };
  int idx = 0;
  for (int m = 0; m < 2; m++) for (int f = 0; f < 2; f++) for (int p : precs) for (int s = 0; s < 2; s++, idx++)
    {
      if (!M.mine (idx)) continue;
      Cfg c { m ? Resampler2::DOWN : Resampler2::UP, 1, p, s == 1, f ? Resampler2::FILTER_IIR : Resampler2::FILTER_FIR, idx };
      const std::string nm = c.name();
      M.at ("%s|%d|create", nm.c_str(), idx);
      auto r = c.make();
      Rng g (mix (M.seed, idx + 111));
      auto queries = [&] (const char *when)
        {
          M.at ("%s|%d|queries %s", nm.c_str(), idx, when);
          const Resampler2& cr = *r;
          if (cr.delay() != 0) M.viol ("delay:" + nm, idx, "%s: delay() = %g %s", nm.c_str(), cr.delay(), when);
          u32 o = cr.order(); if (o != cr.order() || o > 1000) M.viol ("order:" + nm, idx, "%s: order() = %u", nm.c_str(), o);
          bool e = cr.sse_enabled(); if (e && !s) M.viol ("enabled:" + nm, idx, "%s: sse_enabled() with SIMD switched off", nm.c_str());
          M.stat ("queries", 3);
        };
      auto blk = [&] (size_t n, int kind, unsigned mi, unsigned mo)
        {
          Buf in (n, mi), out (n, mo);
          vf keep (n);
          for (size_t i = 0; i < n; i++)
            {
              u32 u = u32 (g.next());
              if (kind == 1) u = (u & 0x807fffff) | 0x7f800000;         // NaN payloads (quiet and signalling), infinities
              if (kind == 2) u &= 0x807fffff;                           // denormals
              if (kind == 3) { float v = g.sym(); u = bits (v); }
              if (kind == 4) u = (i & 1) ? 0x80000000u : 0;
              memcpy (in.p + i, &u, 4);
            }
          if (n) memcpy (keep.data(), in.p, n * 4);
          M.at ("%s|%d|block of %zu, kind %d", nm.c_str(), idx, n, kind);
          r->process_block (in.p, n, out.p);
          M.eval (mix (mix (idx, n), kind * 16 + mi * 4 + mo), n > 0); M.stat ("samples_compared", n);
          if (n && memcmp (out.p, keep.data(), n * 4))
            {
              size_t i = 0; while (!memcmp (&out.p[i], &keep[i], 4)) i++;
              u32 w; memcpy (&w, &keep[i], 4);
              M.viol ("copy:" + nm, idx, "%s: block of %zu: output[%zu] = %08x, input %08x", nm.c_str(), n, i, bits (out.p[i]), w);
              return false;
            }
          if (n && memcmp (in.p, keep.data(), n * 4) || !out.canary_ok() || !in.canary_ok()) { M.viol ("memory:" + nm, idx, "%s: block of %zu: memory outside the output changed", nm.c_str(), n); return false; }
          return true;
        };
      queries ("when new");
      bool ok = true;
      for (u32 n = 0; ok && n < 300; n++) ok = blk (n, g.below (5), g.below (4), g.below (4));
      for (u32 p2 = 256; ok && p2 <= 65536; p2 *= 2) for (int d = -3; ok && d <= 3; d++) ok = blk (p2 + d, g.below (5), g.below (4), g.below (4));
      for (int k = 0; ok && k < (M.thorough ? 3000 : 200); k++)
        {
          ok = blk (g.below (4) ? g.below (3000) : g.below (100000), k % 5, g.below (4), g.below (4));
          if (g.below (8) == 0) { M.at ("%s|%d|reset", nm.c_str(), idx); r->reset(); M.stat ("resets", 1); }
          if (g.below (8) == 0) queries ("in use");
          if (g.below (16) == 0) { M.at ("%s|%d|move", nm.c_str(), idx); auto t = std::unique_ptr<Resampler2> (new Resampler2 (std::move (*r))); r = std::move (t); }
        }
      if (ok) ok = blk (M.thorough ? 40000000 : 3000000, 0, 1, 3);
      // empty blocks from nowhere
      M.at ("%s|%d|empty block, null pointers", nm.c_str(), idx);
      r->process_block (nullptr, 0, nullptr);
      M.sample ("%s: blocks of 0..299, around all powers of two up to 65536, random up to 100000, any bit pattern", nm.c_str());
    }
  // all values: exhaustive over the upper 20 bits in quick, all 2^32 patterns in the thorough tier
  if (M.nshard == 1 || M.shard == 0 || M.thorough)
    {
      Resampler2 r (Resampler2::UP, 1, Resampler2::PREC_96DB);
      const u32 N = 1 << 16; std::vector<u32> a (N), b (N);
      for (u64 base = 0; base < (u64 (1) << 32); base += u64 (N) * (M.thorough ? 1 : 16))
        {
          if (M.thorough && int ((base >> 16) % M.nshard) != M.shard) continue;
          for (u32 i = 0; i < N; i++) a[i] = u32 (base) + (M.thorough ? i : i * 16 + (i & 15));
          M.at ("UP-x1|-1|bit patterns from %08x", u32 (base));
          r.process_block ((float *) a.data(), N, (float *) b.data());
          if (memcmp (a.data(), b.data(), N * 4)) { M.viol ("pattern", -1, "bit patterns from %08x are not copied exactly", u32 (base)); break; }
          M.stat ("bit_patterns", N); M.eval (mix (base, 77));
        }
    }
  return M.finish();
}
