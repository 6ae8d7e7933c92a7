// C23: diagnostics on stderr, refusal of blocks that cannot be resampled, no-ops. Oracles: captured stderr, canaries, twin instance.
#include "mon.hh"
#include <sys/syscall.h>
using namespace mon;
static Mon M;
// everything written to stderr (through stdio, iostreams or directly) while an object exists
struct Capture {
  int old, fd;
  Capture() { fflush (stderr); old = dup (2); fd = syscall (SYS_memfd_create, "stderr", 0); if (old < 0 || fd < 0) exit (3); dup2 (fd, 2); }
  std::string get()
  {
    fflush (stderr);
    off_t n = lseek (fd, 0, SEEK_END); std::string s (n, 0); if (n && pread (fd, &s[0], n, 0) != n) exit (3);
    if (ftruncate (fd, 0) || lseek (fd, 0, SEEK_SET)) exit (3);
    for (auto& c : s) if (c == '\n' || c == '\t') c = ' ';
    return s;
  }
  ~Capture() { std::string s = get(); dup2 (old, 2); close (old); close (fd); if (!s.empty()) fprintf (stderr, "%s\n", s.c_str()); }
};
static u32 bad_len (Rng& g, const Cfg& c)
{
  u32 n;
  do { u32 k = g.below (6); n = k < 2 ? 1 + g.below (40) : k == 2 ? 1 + g.below (600) : k == 3 ? 1 + g.below (20000) : k == 4 ? c.ratio * (1 + g.below (300)) + (g.below (2) ? 1 : -1) : (1u << g.range (1, 13)) + g.range (-7, 7); } while (n % c.ratio == 0 || n > 30000);
  return n;
}
static void stream (const Cfg& c, Capture& cap)
{
  Rng g (mix (M.seed, c.index + 231));
  const std::string nm = c.name();
  std::string s;
  for (int round = 0; round < (M.thorough ? 100 : 4); round++)
    {
      M.at ("%s|%d|construction", nm.c_str(), c.index);
      auto a = c.make(), b = c.make();        // b gets the valid blocks only
      if (!(s = cap.get()).empty()) { M.viol ("noise-new:" + nm, c.index, "%s: '%.200s' printed for a valid specification", nm.c_str(), s.c_str()); return; }
      for (int k = 0; k < 160; k++)
        {
          const int op = g.below (10);
          if (op < 4)            // valid block
            {
              const u32 n = g.below (4) ? g.below (90) : g.below (1500);
              vf x = mixed_signal (g, n * c.in_per(), 20); if (n && g.below (30) == 0) x[g.below (x.size())] = g.below (2) ? NAN : INFINITY;
              Buf o1 (n * c.out_per(), g.below (4)), o2 (n * c.out_per(), 0);
              M.at ("%s|%d|valid block of %u units", nm.c_str(), c.index, n);
              a->process_block (x.data(), x.size(), o1.p); b->process_block (x.data(), x.size(), o2.p);
              s = cap.get();
              if (!s.empty()) { M.viol ("noise:" + nm, c.index, "%s: '%.200s' printed for a valid block of %zu samples", nm.c_str(), s.c_str(), x.size()); return; }
              size_t w; if (!same_bits (o1.p, o2.p, o1.n, &w) && o1.p[w] != o2.p[w])
                {
                  // alignment of the buffers may lead to different rounding
                  vd bd = bound (c, x.data(), n); bool far = false; for (size_t i = 0; i < o1.n; i++) if (std::isfinite (o2.p[i]) && !(std::fabs (o1.p[i] - o2.p[i]) <= 1e-5 * (1 + std::fabs (o2.p[i])))) far = true;
                  if (far) { M.viol ("state:" + nm, c.index, "%s: output %.9g instead of %.9g after refused or empty blocks", nm.c_str(), o1.p[w], o2.p[w]); return; }
                }
              M.stat ("valid_blocks", 1); M.eval (mix (mix (c.index, n), mix (k, round)), false);
            }
          else if (op < 6)       // empty block
            {
              Buf o (8); float x[4] = { NAN, NAN, NAN, NAN };
              M.at ("%s|%d|empty block", nm.c_str(), c.index);
              const int v = g.below (4);
              a->process_block (v & 1 ? nullptr : x, 0, v & 2 ? nullptr : o.p);
              s = cap.get();
              if (!s.empty()) { M.viol ("noise-empty:" + nm, c.index, "%s: '%.200s' printed for an empty block", nm.c_str(), s.c_str()); return; }
              for (size_t i = 0; i < o.n; i++) if (bits (o.p[i]) != o.pat) { M.viol ("write-empty:" + nm, c.index, "%s: output written for an empty block", nm.c_str()); return; }
              M.stat ("empty_blocks", 1); M.eval (mix (mix (c.index, v), mix (k, round)));
            }
          else if (op < 7) { a->reset(); b->reset(); a->order(); a->delay(); a->sse_enabled(); Resampler2::sse_available(); s = cap.get(); if (!s.empty()) { M.viol ("noise-query:" + nm, c.index, "%s: '%.200s' printed by reset() or a query", nm.c_str(), s.c_str()); return; } }
          else if (!c.up())      // block that cannot be resampled
            {
              const u32 n = bad_len (g, c);
              Guard in (n, true); const bool big = g.below (2); Buf o (n + 16, g.below (4)); (void) big;
              for (u32 i = 0; i < n; i++) in.p[i] = 1000 + i;
              in.readonly();
              M.at ("%s|%d|block of %u samples", nm.c_str(), c.index, n);
              a->process_block (in.p, n, o.p);
              s = cap.get();
              M.stat ("refused_blocks", 1); M.eval (mix (mix (c.index, n), mix (k, round + 1000)));
              if (s.empty()) { M.viol ("silent:" + nm, c.index, "%s: block of %u samples, no diagnostic on stderr", nm.c_str(), n); return; }
              for (size_t i = 0; i < o.n; i++) if (bits (o.p[i]) != o.pat) { M.viol ("write:" + nm, c.index, "%s: block of %u samples: output[%zu] was written", nm.c_str(), n, i); return; }
              if (!o.canary_ok()) { M.viol ("write:" + nm, c.index, "%s: block of %u samples: memory around the output was written", nm.c_str(), n); return; }
            }
        }
    }
  M.sample ("%s: refused blocks reported, stream continues like that of an instance which never saw them", nm.c_str());
}
// every length that must be refused, every valid length, each once and in random order
static void lengths (const Cfg& c, Capture& cap)
{
  Rng g (mix (M.seed, c.index + 232));
  const std::string nm = c.name(); const u32 L = 70000; std::string s;
  std::vector<u32> ns; for (u32 n = 1; n <= (M.thorough ? 9000u : 2600u); n++) ns.push_back (n);
  for (u32 p = 4096; p < L; p *= 2) for (int d = -9; d <= 9; d++) ns.push_back (p + d);
  for (int i = 0; i < 200; i++) ns.push_back (1 + g.below (L));
  for (size_t i = ns.size(); i > 1; i--) std::swap (ns[i - 1], ns[g.below (i)]);
  auto a = c.make(), b = c.make(); if (!(s = cap.get()).empty()) return;
  vf x = noise_signal (g, (L + 16) * 1), o1 (L * 8 + 16), o2 (L * 8 + 16);
  for (u32 n : ns)
    {
      const bool valid = c.up() || n % c.ratio == 0; const u32 outs = valid ? (c.up() ? n * c.ratio : n / c.ratio) : 0;
      if (c.up() && n > 20000) continue;
      M.at ("%s|%d|block of %u samples", nm.c_str(), c.index, n);
      o1[outs] = 77; o1[outs / 2] = 78;
      a->process_block (x.data(), n, o1.data());
      s = cap.get(); M.eval (mix (mix (c.index, n), 2320)); M.stat (valid ? "valid_blocks" : "refused_blocks", 1);
      if (valid && !s.empty()) { M.viol ("noise:" + nm, c.index, "%s: '%.200s' printed for a valid block of %u samples", nm.c_str(), s.c_str(), n); return; }
      if (!valid && s.empty()) { M.viol ("silent:" + nm, c.index, "%s: block of %u samples, no diagnostic on stderr", nm.c_str(), n); return; }
      if (!valid && o1[0] != 78 && outs == 0) { M.viol ("write:" + nm, c.index, "%s: block of %u samples: output was written", nm.c_str(), n); return; }
      if (outs && o1[outs] != 77) { M.viol ("write:" + nm, c.index, "%s: block of %u samples: output behind the block was written", nm.c_str(), n); return; }
      if (!valid) continue;
      b->process_block (x.data(), n, o2.data());
      for (u32 i = 0; i < outs; i++) if (!(std::fabs (o1[i] - o2[i]) <= 1e-5)) { M.viol ("state:" + nm, c.index, "%s: output %.9g instead of %.9g after refused blocks", nm.c_str(), o1[i], o2[i]); return; }
    }
  if (c.up()) return;
  // refused again and again
  for (int i = 0; i < 3000; i++)
    {
      a->process_block (x.data(), 1 + c.ratio * (i & 3), o1.data()); s = cap.get();
      if (s.empty()) { M.viol ("silent:" + nm, c.index, "%s: refused block number %d in a row is not reported", nm.c_str(), i); return; }
    }
  a->process_block (x.data(), 64 * c.ratio, o1.data()); b->process_block (x.data(), 64 * c.ratio, o2.data());
  for (u32 i = 0; i < 64; i++) if (!(std::fabs (o1[i] - o2[i]) <= 1e-5)) { M.viol ("state:" + nm, c.index, "%s: output %.9g instead of %.9g after 3000 refused blocks", nm.c_str(), o1[i], o2[i]); return; }
  s = cap.get(); M.stat ("refused_blocks", 3000);
}
static void construction (Capture& cap, int idx, Resampler2::Mode m, u32 ratio, int prec, bool sse, Resampler2::Filter f)
{
  const bool okr = ratio == 1 || ratio == 2 || ratio == 4 || ratio == 8, okp = prec == 8 || prec == 12 || prec == 16 || prec == 20 || prec == 24 || (prec == 1 && f == Resampler2::FILTER_FIR);
  const bool valid = okr && (okp || ratio == 1);
  if (okr && ratio == 1 && !okp) return;     // the precision does not matter for ratio 1
  char b[100]; snprintf (b, sizeof b, "mode %d, ratio %u, precision %d, filter %s, simd %d", int (m), ratio, prec, f == Resampler2::FILTER_FIR ? "FIR" : "IIR", int (sse));
  M.at ("construction|%d|%s", idx, b);
  {
    Resampler2 r (m, ratio, Resampler2::Precision (prec), sse, f);
    std::string s = cap.get();
    M.stat (valid ? "valid_specifications" : "invalid_specifications", 1); M.eval (mix (mix (hash_str (b), 1), 2), true);
    if (valid && !s.empty()) M.viol ("noise-construction:" + std::to_string (ratio), idx, "%s: '%.200s' printed", b, s.c_str());
    if (!valid && s.empty()) M.viol (okr ? "unreported-precision:" + std::to_string (prec) : "unreported-ratio:" + std::to_string (ratio), idx, "%s: not reported", b);
  }
  std::string s = cap.get();
  if (!s.empty()) M.viol ("noise-destruction", idx, "%s: '%.200s' printed on destruction", b, s.c_str());
}
int main (int argc, char **argv)
{
  M.init (argc, argv, "C23");
  Capture cap;
  auto cs = all_cfgs();
  for (int m = 0; m < 2; m++) for (int f = 0; f < 2; f++) cs.push_back ({ m ? Resampler2::DOWN : Resampler2::UP, 1, 12, true, f ? Resampler2::FILTER_IIR : Resampler2::FILTER_FIR, int (cs.size()) });
  for (auto& c : cs) if (M.mine (c.index))
    {
      if (c.ratio > 1) { stream (c, cap); lengths (c, cap); continue; }
      // ratio 1
      auto r = c.make(); Rng g (M.seed); vf x = noise_signal (g, 500), y (500);
      for (int k = 0; k < 50; k++) { r->process_block (x.data(), g.below (500), y.data()); r->reset(); r->order(); r->delay(); r->sse_enabled(); r->process_block (nullptr, 0, nullptr); }
      std::string s = cap.get(); M.eval (mix (c.index, 1));
      if (!s.empty()) M.viol ("noise:" + c.name(), c.index, "%s: '%.200s' printed", c.name().c_str(), s.c_str());
    }
  int idx = 10000;
  Rng g (mix (M.seed, 2323));
  std::vector<u32> ratios = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 32, 64, 128, 256, 512, 1024, 65536, 0x10002, 0x80000000u, 0x80000002u, 0xfffffffeu, 0xffffffffu };
  for (int i = 0; i < 40; i++) ratios.push_back (u32 (g.next()) >> g.below (28));
  for (u32 r : ratios) for (int p = 0; p < 32; p++) for (int v = 0; v < 8; v++) { if (M.mine (idx)) construction (cap, idx, v & 1 ? Resampler2::DOWN : Resampler2::UP, r, p, v & 2, v & 4 ? Resampler2::FILTER_IIR : Resampler2::FILTER_FIR); idx++; }
  if (M.mine (0))
    {
      M.at ("static|0|static functions");
      bool ok = Resampler2::test_filter_impl (false);
      for (u32 i = 0; i < 100; i++) { Resampler2::find_precision_for_bits (i); if (i < 32) Resampler2::precision_name (Resampler2::Precision (i)); }
      { PandaResampler::AlignedArray<float> a (100), b (a), c (vf (33)); b = c; a = a; }
      std::string s = cap.get(); M.eval (mix (1, 77));
      if (!s.empty() || !ok) M.viol ("noise-static", 0, "'%.200s' printed by static functions or arrays", s.c_str());
    }
  return M.finish();
}
