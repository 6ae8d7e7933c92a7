// C22: one program for every form of delivery (C++11, needs neither exceptions nor RTTI).
#ifdef C22_TWICE
#include "pandaresampler.hh"
#endif
#include "pandaresampler.hh"
#include "pandaresampler.hh"
#include <cstring>
#include <cmath>
#include <cstdio>
#include <unistd.h>
using PandaResampler::Resampler2;
using PandaResampler::AlignedArray;
#ifdef C22_SECOND
float second_global (unsigned i); unsigned second_global_count(); bool second_same (Resampler2& r, const float *in, unsigned n, float *out); bool second_ok();
Resampler2 *second_make (Resampler2::Mode m, unsigned ratio, int prec, bool sse, int f);
#endif
static unsigned lcg = 12345;
static float rnd() { lcg = lcg * 1664525 + 1013904223; return float (int (lcg >> 8) - (1 << 23)) / (1 << 23); }
// objects with static storage duration work like any other
static Resampler2 global_up (Resampler2::UP, 4, Resampler2::PREC_96DB), global_down (Resampler2::DOWN, 8, Resampler2::PREC_72DB, true, Resampler2::FILTER_IIR);
// ... until they are destroyed at the end of the program
static const float end_in[64] = { 0.5f, -1, 0.25f, 3e-5f, 0.75f, 0, 0, -0.125f, 1, 1, 1, 1 };
static struct AtEnd
{
  Resampler2 r0, r1, r2, r3, r4, r5; float want[6][512]; bool used;
  AtEnd() : r0 (Resampler2::UP, 8, Resampler2::PREC_96DB), r1 (Resampler2::DOWN, 2, Resampler2::PREC_72DB, false), r2 (Resampler2::DOWN, 4, Resampler2::PREC_120DB, true, Resampler2::FILTER_IIR),
            r3 (Resampler2::UP, 2, Resampler2::PREC_144DB, false, Resampler2::FILTER_IIR), r4 (Resampler2::DOWN, 8, Resampler2::PREC_LINEAR), r5 (Resampler2::UP, 8, Resampler2::PREC_48DB, true, Resampler2::FILTER_IIR), used (false) {}
  Resampler2& at (int k) { return k == 0 ? r0 : k == 1 ? r1 : k == 2 ? r2 : k == 3 ? r3 : k == 4 ? r4 : r5; }
  void use() { used = true; for (int k = 0; k < 6; k++) { memset (want[k], 0, sizeof want[k]); at (k).reset(); at (k).process_block (end_in, 64, want[k]); } }
  ~AtEnd()
  {
    if (!used) return;
    for (int k = 0; k < 6; k++)
      {
        float got[512]; memset (got, 0, sizeof got); at (k).reset(); at (k).process_block (end_in, 64, got);
        if (memcmp (got, want[k], sizeof got) || at (k).delay() < 0) { fprintf (stderr, "an instance with static storage duration (%d) gives other results at the end of the program\n", k); _exit (9); }
      }
  }
} at_end;
#ifdef C22_PLUGIN
extern "C" __attribute__((visibility ("default"))) int plugin_main (int argc, char **argv)
#else
int main (int argc, char **argv)
#endif
{
  if (argc < 2) return 3;
  lcg = 12345; global_up.reset(); global_down.reset();
  FILE *f = fopen (argv[1], "wb"); if (!f) return 3;
  FILE *q = fopen (argv[2], "w"); if (!q) return 3;
  const int precs[] = { 1, 8, 12, 16, 20, 24 };
  for (int m = 0; m < 2; m++) for (unsigned ratio = 1; ratio <= 8; ratio *= 2) for (int p = 0; p < 6; p++) for (int s = 0; s < 2; s++) for (int fi = 0; fi < 2; fi++)
    {
      if (fi && precs[p] == 1) continue;
#ifdef C22_SECOND
      Resampler2 *rp = (p + s) % 2 ? second_make (m ? Resampler2::DOWN : Resampler2::UP, ratio, precs[p], s, fi) : new Resampler2 (m ? Resampler2::DOWN : Resampler2::UP, ratio, Resampler2::Precision (precs[p]), s, fi ? Resampler2::FILTER_IIR : Resampler2::FILTER_FIR);
#else
      Resampler2 *rp = new Resampler2 (m ? Resampler2::DOWN : Resampler2::UP, ratio, Resampler2::Precision (precs[p]), s, fi ? Resampler2::FILTER_IIR : Resampler2::FILTER_FIR);
#endif
      Resampler2& r = *rp;
      fprintf (q, "%d %u %d %d %d order %u delay %.6f sse %d\n", m, ratio, precs[p], s, fi, r.order(), r.delay() + 1e-9, int (r.sse_enabled()));
      for (int k = 0; k < 7; k++)
        {
          static const unsigned sizes[] = { 1, 64, 3, 0, 777, 200, 31 };
          const unsigned n = sizes[k], in_n = m ? n * ratio : n, out_n = m ? n : n * ratio;
          AlignedArray<float> in (in_n + 3), out (out_n + 3);
          for (unsigned i = 0; i < in_n; i++) in[i + k % 3] = rnd();
#ifdef C22_SECOND
          if (k % 2) { if (!second_same (r, &in[k % 3], in_n, &out[k % 2])) return 4; } else
#endif
          r.process_block (&in[k % 3], in_n, &out[k % 2]);
          fwrite (&out[k % 2], 4, out_n, f);
          if (k == 4 && (p & 1)) r.reset();
        }
      delete rp;
    }
  float gi[64], go[256]; for (int i = 0; i < 64; i++) gi[i] = rnd();
  global_up.process_block (gi, 64, go); fwrite (go, 4, 256, f); global_down.process_block (go, 256, gi); fwrite (gi, 4, 32, f);
  fprintf (q, "available %d test %d\n", int (Resampler2::sse_available()), int (Resampler2::test_filter_impl (false)));
  for (unsigned b = 0; b < 40; b++) fprintf (q, "bits %u -> %d\n", b, int (Resampler2::find_precision_for_bits (b)));
  for (int p = 0; p < 6; p++) fprintf (q, "name %d '%s'\n", precs[p], Resampler2::precision_name (Resampler2::Precision (precs[p])));
  AlignedArray<double> a (5); a[2] = 1.5; AlignedArray<double> b (a); b = a; fprintf (q, "array %g %g %u\n", b[2], b[4], unsigned (b.size()));
#ifdef C22_SECOND
  // objects of the other translation unit, made before main()
  float rg[160]; for (unsigned i = 0; i < 160; i++) rg[i] = second_global (i);
  fprintf (q, "second"); double sum = 0; for (unsigned i = 0; i < 160; i++) sum += rg[i] * rg[i]; fprintf (q, " %d %d\n", sum > 0.01, int (second_ok()));
#endif
  at_end.use();
  if (fclose (f) || fclose (q)) return 3;
  return 0;
}
