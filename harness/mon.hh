// Shared runtime-monitoring support: configurations, reporter, signals, schedules,
// guarded buffers and independent double-precision reference models.
#pragma once
#include "pandaresampler.hh"
#include <algorithm>
#include <array>
#include <cerrno>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(memory_sanitizer) || __has_feature(thread_sanitizer) || __has_feature(address_sanitizer)
#define MON_SLOW 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define MON_SLOW 1
#endif
#ifndef MON_SLOW
#define MON_SLOW 0
#endif

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MON_UNPOISON(p, n) __msan_unpoison (p, n)
#endif
#endif
#ifndef MON_UNPOISON
#define MON_UNPOISON(p, n) (void) 0
#endif
namespace mon {
// strings filled by the (not instrumented) standard library
inline const std::string& clean (const std::string& s) { MON_UNPOISON (s.data(), s.size() + 1); MON_UNPOISON (&s, sizeof s); return s; }

using PandaResampler::Resampler2;
typedef uint32_t u32;
typedef uint64_t u64;
typedef std::vector<float> vf;
typedef std::vector<double> vd;

// ------------------------------------------------------------------ random numbers
struct Rng {
  u64 s;
  explicit Rng (u64 seed = 1) : s (seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
  u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  u32 below (u32 n) { return n ? u32 ((next() >> 32) * n >> 32) : 0; }
  int range (int a, int b) { return a + int (below (b - a + 1)); }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  float sym() { return float (int32_t (next() >> 39) - (1 << 24)) * (1.0f / (1 << 24)); }
};
inline u64 hash_bytes (const void *p, size_t n, u64 h = 0xcbf29ce484222325ull)
{
  const unsigned char *c = (const unsigned char *) p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ull; }
  return h;
}
inline u64 mix (u64 a, u64 b)
{
  u64 z = (a + 0x517cc1b727220a95ull) * 0x9E3779B97F4A7C15ull; z ^= z >> 29; z = (z + b) * 0xBF58476D1CE4E5B9ull; z ^= z >> 32; z *= 0x94D049BB133111EBull;
  return z ^ (z >> 29);
}
inline u64 hash_str (const std::string& s) { return hash_bytes (s.data(), s.size()); }

// ------------------------------------------------------------------ design models
struct FirStage { int stage, bits, n; double taps[52]; };
struct IirStage { int stage, bits, nc; double gd, atten; double coef[9]; };
#include "design.inc"

// ------------------------------------------------------------------ configurations
struct Cfg {
  Resampler2::Mode mode; unsigned ratio; int prec; bool sse; Resampler2::Filter filter; int index;
  bool up() const { return mode == Resampler2::UP; }
  bool fir() const { return filter == Resampler2::FILTER_FIR; }
  int stages() const { return ratio == 8 ? 3 : ratio == 4 ? 2 : ratio == 2 ? 1 : 0; }
  std::string name() const
  {
    char b[80];
    snprintf (b, sizeof b, "%s-x%u-%dbit-%s-%s", up() ? "UP" : "DOWN", ratio, prec, fir() ? "FIR" : "IIR", sse ? "simd" : "scalar");
    std::string s = b; clean (s); return s;
  }
  std::unique_ptr<Resampler2> make() const
  {
    return std::unique_ptr<Resampler2> (new Resampler2 (mode, ratio, Resampler2::Precision (prec), sse, filter));
  }
  // samples per unit on both sides; one unit = one sample at the low rate
  unsigned in_per() const { return up() ? 1 : ratio; }
  unsigned out_per() const { return up() ? ratio : 1; }
  const FirStage *fir_stage (int s) const
  {
    for (auto& f : fir_stages) if (f.bits == prec && (f.stage == s || f.stage == 0)) return &f;
    return nullptr;
  }
  const IirStage *iir_stage (int s) const
  {
    for (auto& f : iir_stages) if (f.bits == prec && f.stage == s) return &f;
    return nullptr;
  }
  // upper bound for the memory of a FIR chain in units of the low rate
  int fir_mem() const
  {
    double m = 0;
    for (unsigned s = 2; s <= ratio; s *= 2) m += double (fir_stage (s)->n) / (s / 2);
    return int (m) + 3;
  }
  int order2() const { return fir() ? fir_stage (2)->n : 2 * iir_stage (2)->nc + 1; }
};
inline std::vector<Cfg> all_cfgs()
{
  std::vector<Cfg> v;
  for (int m = 0; m < 2; m++)
    for (unsigned r : { 2u, 4u, 8u })
      for (int f = 0; f < 2; f++)
        for (int p : { 1, 8, 12, 16, 20, 24 })
          for (int s = 0; s < 2; s++)
            if (f == 0 || p != 1)
              v.push_back ({ m ? Resampler2::DOWN : Resampler2::UP, r, p, s == 1, f ? Resampler2::FILTER_IIR : Resampler2::FILTER_FIR, int (v.size()) });
  return v;
}

// ------------------------------------------------------------------ reporter
struct Mon {
  std::string prop, report;
  u64 seed = 1; bool thorough = false; int shard = 0, nshard = 1; int only = -1; std::string mode, variant = "default"; std::string dump;
  FILE *rep = nullptr;
  char *crumb = nullptr;
  std::unordered_set<u64> seen, viols; u64 evals = 0; int nviol = 0, nsample = 0;
  void init (int argc, char **argv, const char *p)
  {
    prop = p;
    for (int i = 1; i < argc; i++)
      {
        std::string a = argv[i]; auto eq = a.find ('='); std::string k = a.substr (0, eq), v = eq == std::string::npos ? "" : a.substr (eq + 1);
        if (k == "seed") seed = strtoull (v.c_str(), 0, 10);
        else if (k == "tier") thorough = v == "thorough";
        else if (k == "shard") { shard = atoi (v.c_str()); nshard = atoi (strchr (v.c_str(), '/') + 1); }
        else if (k == "only") only = atoi (v.c_str());
        else if (k == "mode") mode = v;
        else if (k == "dump") dump = v;
        else if (k == "variant") variant = v;
        else if (k == "report") report = v;
        else { fprintf (stderr, "bad argument %s\n", argv[i]); exit (3); }
      }
    rep = report.empty() ? stdout : fopen (clean (report).c_str(), "w");
    if (!rep) { perror ("report"); exit (3); }
    if (!report.empty())
      {
        int fd = open (clean (report + ".crumb").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ftruncate (fd, 512) == 0)
          {
            void *m = mmap (nullptr, 512, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED) crumb = (char *) m;
            close (fd);
          }
      }
    at ("start");
  }
  bool mine (int idx) const { return only >= 0 ? idx == only : int (((u32 (idx) + 1) * 2654435761u >> 12) % u32 (nshard)) == shard; }
  __attribute__((format (printf, 2, 3))) void at (const char *fmt, ...)
  {
    if (!crumb) return;
    va_list ap; va_start (ap, fmt); vsnprintf (crumb, 500, fmt, ap); va_end (ap);
  }
  // key identifies the violation; index = configuration/case index for the replay
  __attribute__((format (printf, 4, 5))) void viol (const std::string& key, int index, const char *fmt, ...)
  {
    nviol++;
    if (nviol > 200 || !viols.insert (hash_str (key)).second) return;
    char b[1024]; va_list ap; va_start (ap, fmt); vsnprintf (b, sizeof b, fmt, ap); va_end (ap);
    for (char *c = b; *c; c++) if (*c == '\n' || *c == '\t') *c = ' ';
    fprintf (rep, "V\t%s\t%d\t%s\n", key.c_str(), index, b);
    fflush (rep);
  }
  void eval (u64 h, bool nontrivial = true, u64 n = 1) { evals += n; if (nontrivial) seen.insert (h); }
  __attribute__((format (printf, 2, 3))) void sample (const char *fmt, ...)
  {
    if (nsample++ >= 3) return;
    va_list ap; va_start (ap, fmt); fprintf (rep, "S\t"); vfprintf (rep, fmt, ap); fprintf (rep, "\n"); va_end (ap);
  }
  std::vector<std::pair<std::string,double>> adds, maxs;
  void stat (const char *k, double v) { for (auto& a : adds) if (a.first == k) { a.second += v; return; } adds.push_back ({ k, v }); }
  void statmax (const std::string& k, double v) { for (auto& a : maxs) if (a.first == k) { if (v > a.second) a.second = v; return; } maxs.push_back ({ k, v }); }
  int finish()
  {
    for (auto& a : adds) fprintf (rep, "A\t%s\t%.9g\n", a.first.c_str(), a.second);
    for (auto& a : maxs) fprintf (rep, "M\t%s\t%.9g\n", a.first.c_str(), a.second);
    fprintf (rep, "E\t%llu\n", (unsigned long long) evals);
    if (!report.empty())
      {
        FILE *f = fopen (clean (report + ".hash").c_str(), "wb");
        if (!f) return 3;
        for (u64 h : seen) fwrite (&h, 8, 1, f);
        fclose (f);
      }
    fprintf (rep, "DONE\n");
    fflush (rep);
    at ("done");
    return 0;
  }
};

// ------------------------------------------------------------------ buffers
// heap block: `mis` floats of misalignment relative to a 64 byte boundary, canaries on both sides
struct Buf {
  enum { PAD = 32 };
  std::unique_ptr<unsigned char[]> mem; float *p = nullptr; size_t n = 0; u32 pat = 0;
  Buf() {}
  Buf (size_t n_, unsigned mis = 0, u32 pat_ = 0xffa5a5a5u) { alloc (n_, mis, pat_); }
  void alloc (size_t n_, unsigned mis = 0, u32 pat_ = 0xffa5a5a5u)
  {
    n = n_; pat = pat_;
    mem.reset (new unsigned char[(n + 2 * PAD + 32) * 4 + 64]);
    uintptr_t a = (uintptr_t) mem.get(); a = (a + 63) & ~uintptr_t (63);
    p = (float *) a + PAD + mis;
    for (size_t i = 0; i < n + 2 * PAD; i++) memcpy (p - PAD + i, &pat, 4);
  }
  bool canary_ok() const
  {
    for (int i = 1; i <= PAD; i++) if (memcmp (p - i, &pat, 4) || memcmp (p + n - 1 + i, &pat, 4)) return false;
    return true;
  }
  float& operator[] (size_t i) { return p[i]; }
};

// page guarded block: inaccessible pages directly before or after the data
struct Guard {
  char *base = nullptr; size_t len = 0, pg = 4096; float *p = nullptr; size_t n = 0; char *data = nullptr; size_t dlen = 0;
  Guard() {}
  Guard (size_t n_, bool at_end, unsigned skip_bytes = 0)
  {
    n = n_;
    dlen = ((n * 4 + skip_bytes + pg - 1) / pg) * pg; if (!dlen) dlen = pg;
    len = dlen + 2 * pg;
    base = (char *) mmap (nullptr, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED) { perror ("mmap"); exit (3); }
    data = base + pg;
    mprotect (data, dlen, PROT_READ | PROT_WRITE);
    p = (float *) (at_end ? data + dlen - n * 4 : data + skip_bytes);
  }
  void readonly() { mprotect (data, dlen, PROT_READ); }
  ~Guard() { if (base) munmap (base, len); }
  Guard (const Guard&) = delete; Guard& operator= (const Guard&) = delete;
};

inline u32 bits (float f) { u32 u; memcpy (&u, &f, 4); return u; }
inline float fbits (u32 u) { float f; memcpy (&f, &u, 4); return f; }
inline bool same_bits (const float *a, const float *b, size_t n, size_t *where = nullptr)
{
  if (n == 0 || memcmp (a, b, n * 4) == 0) return true;
  for (size_t i = 0; i < n; i++)
    if (bits (a[i]) != bits (b[i]) && !(std::isnan (a[i]) && std::isnan (b[i]))) { if (where) *where = i; return false; }
  return true;
}

// ------------------------------------------------------------------ signals
enum SigKind { SIG_NOISE, SIG_IMPULSE, SIG_DC, SIG_SILENCE, SIG_SCALED, SIG_SINE, SIG_NYQ, SIG_RAMP, SIG_SQUARE, N_SIG };
inline void fill_segment (Rng& r, float *x, size_t n, int kind, int max_gap)
{
  float a = r.sym();
  if (std::fabs (a) < 0.01f) a = 0.5f;
  switch (kind)
    {
    case SIG_NOISE:   for (size_t i = 0; i < n; i++) x[i] = r.sym(); break;
    case SIG_IMPULSE: {
        for (size_t i = 0; i < n; i++) x[i] = 0;
        for (size_t i = r.below (max_gap); i < n; i += 1 + r.below (max_gap)) x[i] = r.sym();
        break; }
    case SIG_DC:      for (size_t i = 0; i < n; i++) x[i] = a; break;
    case SIG_SILENCE: for (size_t i = 0; i < n; i++) x[i] = (r.next() & 64) ? 0.0f : -0.0f; break;
    case SIG_SCALED:  { float s = std::ldexp (1.0f, r.range (-20, 20)); for (size_t i = 0; i < n; i++) x[i] = s * r.sym(); break; }
    case SIG_SINE:    { double w = r.uni() * M_PI, ph = r.uni() * 6; for (size_t i = 0; i < n; i++) x[i] = std::sin (w * i + ph) * a; break; }
    case SIG_NYQ:     for (size_t i = 0; i < n; i++) x[i] = (i & 1) ? a : -a; break;
    case SIG_RAMP:    for (size_t i = 0; i < n; i++) x[i] = a * (float (i) / float (n) - 0.3f); break;
    case SIG_SQUARE:  { int p = 1 + r.below (60); for (size_t i = 0; i < n; i++) x[i] = (i / p) & 1 ? a : -a; break; }
    }
}
// mixed stream: changing segments
inline vf mixed_signal (Rng& r, size_t n, int max_gap)
{
  vf x (n);
  for (size_t i = 0; i < n;)
    {
      size_t len = std::min<size_t> (n - i, 40 + r.below (1500));
      int k = r.below (N_SIG + 3);
      if (k >= N_SIG) k = k == N_SIG ? SIG_NOISE : SIG_IMPULSE;
      fill_segment (r, &x[i], len, k, max_gap);
      i += len;
    }
  return x;
}
inline vf noise_signal (Rng& r, size_t n, float amp = 1) { vf x (n); for (auto& v : x) v = r.sym() * amp; return x; }

// ------------------------------------------------------------------ reference models (double precision)
// y: expected output (computed with float-rounded taps/coefs), b: sum of magnitudes |h| * |x| (FIR) / envelope (IIR)
struct Out { vd y, b; };
inline void fir_up (const vd& x, const vd& ax, const FirStage& f, vd& y, vd& b)
{
  const int N = f.n, H = N / 2; const long n = x.size();
  double t[52], at[52];
  for (int i = 0; i < N; i++) { t[i] = float (f.taps[i] * 2.0); at[i] = std::fabs (t[i]); }
  y.assign (2 * n, 0); b.assign (2 * n, 0);
  vd px (n + N, 0), pa (n + N, 0);
  std::copy (x.begin(), x.end(), px.begin() + N - 1); std::copy (ax.begin(), ax.end(), pa.begin() + N - 1);
  for (long m = 0; m < n; m++)
    {
      double s = 0, a = 0;
      for (int i = 0; i < N; i++) { s += px[m + i] * t[i]; a += pa[m + i] * at[i]; }
      y[2 * m] = s; b[2 * m] = a; y[2 * m + 1] = px[m + H]; b[2 * m + 1] = pa[m + H];
    }
}
inline void fir_down (const vd& x, const vd& ax, const FirStage& f, vd& y, vd& b)
{
  const int N = f.n, H = N / 2 - 1; const long n = x.size() / 2;
  double t[52], at[52];
  for (int i = 0; i < N; i++) { t[i] = float (f.taps[i]); at[i] = std::fabs (t[i]); }
  y.assign (n, 0); b.assign (n, 0);
  vd pe (n + N, 0), pae (n + N, 0), po (n + N, 0), pao (n + N, 0);
  for (long m = 0; m < n; m++) { pe[m + N - 1] = x[2 * m]; po[m + N - 1] = x[2 * m + 1]; pae[m + N - 1] = ax[2 * m]; pao[m + N - 1] = ax[2 * m + 1]; }
  for (long m = 0; m < n; m++)
    {
      double s = 0, a = 0;
      for (int i = 0; i < N; i++) { s += pe[m + i] * t[i]; a += pae[m + i] * at[i]; }
      y[m] = s + 0.5 * po[m + H]; b[m] = a + 0.5 * pao[m + H];
    }
}
struct AllPass { double a, px = 0, py = 0; double run (double x) { double y = a * (x - py) + px; px = x; py = y; return y; } };
inline void iir_up (const vd& x, const IirStage& f, vd& y)
{
  std::vector<AllPass> c; for (int i = 0; i < f.nc; i++) c.push_back ({ double (float (f.coef[i])) });
  y.resize (2 * x.size());
  for (size_t m = 0; m < x.size(); m++)
    {
      double e = x[m], o = x[m];
      for (int i = 0; i < f.nc; i += 2) e = c[i].run (e);
      for (int i = 1; i < f.nc; i += 2) o = c[i].run (o);
      y[2 * m] = e; y[2 * m + 1] = o;
    }
}
inline void iir_down (const vd& x, const IirStage& f, vd& y)
{
  std::vector<AllPass> c; for (int i = 0; i < f.nc; i++) c.push_back ({ double (float (f.coef[i])) });
  y.resize (x.size() / 2);
  for (size_t m = 0; m < y.size(); m++)
    {
      double e = x[2 * m + 1], o = x[2 * m];
      for (int i = 0; i < f.nc; i += 2) e = c[i].run (e);
      for (int i = 1; i < f.nc; i += 2) o = c[i].run (o);
      y[m] = 0.5 * (e + o);
    }
}
// envelope of the input at unit level, expanded to the output rate
inline vd envelope (const Cfg& c, const float *x, size_t units)
{
  vd b (units * c.out_per());
  double e = 0; const unsigned ip = c.in_per(), op = c.out_per();
  for (size_t u = 0; u < units; u++)
    {
      double m = 0;
      for (unsigned i = 0; i < ip; i++) m = std::max (m, std::fabs (double (x[u * ip + i])));
      e = std::max (m, e * 0.965);
      for (unsigned i = 0; i < op; i++) b[u * op + i] = e;
    }
  return b;
}
inline Out model (const Cfg& c, const float *x, size_t units)
{
  Out o; size_t n = units * c.in_per();
  vd cur (x, x + n), acur (n);
  for (size_t i = 0; i < n; i++) acur[i] = std::fabs (cur[i]);
  if (c.up())
    for (unsigned s = 2; s <= c.ratio; s *= 2)
      {
        if (c.fir()) { fir_up (cur, acur, *c.fir_stage (s), o.y, o.b); acur.swap (o.b); } else iir_up (cur, *c.iir_stage (s), o.y);
        cur.swap (o.y);
      }
  else
    for (unsigned s = c.ratio; s >= 2; s /= 2)
      {
        if (c.fir()) { fir_down (cur, acur, *c.fir_stage (s), o.y, o.b); acur.swap (o.b); } else iir_down (cur, *c.iir_stage (s), o.y);
        cur.swap (o.y);
      }
  o.y.swap (cur);
  if (c.fir()) o.b.swap (acur); else { o.b = envelope (c, x, units); for (auto& v : o.b) v *= 4; }
  return o;
}
// only the magnitude bound
inline vd bound (const Cfg& c, const float *x, size_t units) { if (c.fir()) return model (c, x, units).b; vd b = envelope (c, x, units); for (auto& v : b) v *= 4; return b; }

// rounding allowance: float rounding of a sum/cascade with term magnitude b
const double EPS = 1.0 / (1 << 24);
inline double tol (double b, double K = 40) { return K * EPS * b + 1e-41; }

struct Cmp { bool ok = true; size_t at = 0; double a = 0, r = 0, t = 0, worst = 0; };
template<class R> inline Cmp compare (const float *got, const R *ref, const double *b, size_t n, double K = 40)
{
  Cmp c;
  for (size_t i = 0; i < n; i++)
    {
      double d = std::fabs (double (got[i]) - double (ref[i])), t = tol (b[i], K);
      if (d <= t) { if (b[i] > 1e-30) { double w = d / (EPS * b[i]); if (w > c.worst) c.worst = w; } continue; }
      if (c.ok) { c.ok = false; c.at = i; c.a = got[i]; c.r = ref[i]; c.t = t; }
    }
  return c;
}

// ------------------------------------------------------------------ running
inline void run_all (Resampler2& r, const Cfg& c, const float *in, size_t units, float *out, const std::vector<u32>& sched)
{
  size_t u = 0, k = 0;
  while (u < units)
    {
      size_t n = sched.empty() ? units : std::min<size_t> (sched[k++ % sched.size()], units - u);
      r.process_block (in + u * c.in_per(), n * c.in_per(), out + u * c.out_per());
      u += n;
    }
}
// all ordered pairs of sizes 0..S-1 as adjacent elements (de Bruijn sequence of order 2 over S symbols)
inline std::vector<u32> all_pairs (u32 S)
{
  std::vector<u32> v; v.reserve (size_t (S) * S + 1);
  for (u32 a = 0; a < S; a++) { v.push_back (a); for (u32 b = a + 1; b < S; b++) { v.push_back (a); v.push_back (b); } }
  v.push_back (0);
  return v;
}
// every ordered pair of small sizes, every size up to a limit, round sizes beyond it
inline std::vector<u32> dense_sizes (Rng& r, const Cfg& c, u32 pairs, u32 every, u32 limit)
{
  std::vector<u32> v = all_pairs (std::min<u32> (2 * c.order2() + 12, pairs)), w;
  for (u32 n = 1; n <= every; n++) w.push_back (n);
  for (u32 n : { 4410u, 4800u, 6000u, 6144u, 8191u, 8192u, 8193u, 8820u, 9600u, 10000u, 12288u, 16000u, 16383u, 16384u, 16385u, 20000u, 24576u, 32767u, 32768u, 32769u, 44100u, 48000u, 65535u, 65536u, 65537u, 96000u, 100000u })
    if (n <= limit) { w.push_back (n); if (c.ratio > 2 && n % c.ratio == 0) w.push_back (n / c.ratio); }
  for (size_t i = w.size(); i > 1; i--) std::swap (w[i - 1], w[r.below (i)]);
  v.insert (v.end(), w.begin(), w.end());
  return v;
}
// sizes around the internal block limits of the implementation (in units of the low rate)
inline std::vector<u32> edge_sizes (Rng& r, const Cfg& c, u32 limit)
{
  std::vector<u32> base, v;
  for (u32 p = 1; p <= limit; p *= 2) base.push_back (p);
  const int o = c.order2();
  for (int m : { o, 2 * o, 3 * o }) base.push_back (m);
  for (u32 p = 512; p <= limit; p *= 2) { base.push_back (p / c.ratio); base.push_back (p + o); base.push_back (p > u32 (o) ? p - o : 1); }
  for (u32 b : base) for (int d = -9; d <= 9; d++) { long s = long (b) + d; if (s >= 0 && s <= long (limit)) v.push_back (s); }
  std::sort (v.begin(), v.end()); v.erase (std::unique (v.begin(), v.end()), v.end());
  for (size_t i = v.size(); i > 1; i--) std::swap (v[i - 1], v[r.below (i)]);
  return v;
}
inline std::vector<u32> random_sizes (Rng& r, size_t total, u32 maxs)
{
  std::vector<u32> v; size_t sum = 0;
  while (sum < total)
    {
      u32 lim = 1u << r.below (1 + (u32) std::ceil (std::log2 (double (maxs))));
      u32 s = r.below (std::min (lim, maxs) + 1);
      v.push_back (s); sum += s;
    }
  return v;
}
} // mon
