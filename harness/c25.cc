// C25: the IIR building blocks against the mathematical all-pass pair, for every number of coefficients, float, double and SSE.
#include "mon.hh"
#include "pandaresampler/hiir/Upsampler2xFpu.h"
#include "pandaresampler/hiir/Downsampler2xFpu.h"
#ifdef __SSE__
#include "pandaresampler/hiir/Upsampler2xSse.h"
#include "pandaresampler/hiir/Downsampler2xSse.h"
#endif
using namespace mon;
namespace hi = PandaResampler::hiir;
static Mon M;
typedef long double LD;
// reference: cell y[n] = a (x[n] - y[n-1]) + x[n-1]; chain 0 has the cells 0, 2, 4.., chain 1 the cells 1, 3, 5..
struct Ref {
  std::vector<LD> a, px, py; LD peak = 0;
  Ref (const std::vector<LD>& a_) : a (a_), px (a_.size(), 0), py (a_.size(), 0) {}
  LD chain (int which, LD x)
  {
    peak = std::max (peak * 0.9995L, std::fabs (x));
    for (size_t i = which; i < a.size(); i += 2) { LD y = a[i] * (x - py[i]) + px[i]; px[i] = x; py[i] = y; x = y; peak = std::max (peak, std::fabs (x)); }
    return x;
  }
};
template<class T> struct Case { int nc; std::vector<double> coef; std::vector<LD> rc; LD noise; const char *kind; };
template<class T> static Case<T> make_case (Rng& g, int nc)
{
  Case<T> c; c.nc = nc;
  const int k = g.below (4); static const char *kn[] = { "increasing", "random", "with negative", "design like" }; c.kind = kn[k];
  for (int i = 0; i < nc; i++) { double a = 0.02 + 0.94 * g.uni(); if (k == 2 && g.below (3) == 0) a = -a * 0.9; if (k == 3) a = 0.97 * (i + 0.7) / nc; if (k == 1 && g.below (12) == 0) a = 0; c.coef.push_back (a); }
  if (k == 0) std::sort (c.coef.begin(), c.coef.end());
  c.noise = 1;
  for (double a : c.coef) { T t = T (a); c.rc.push_back (t); c.noise += 1 / (1 - std::fabs (a)); }
  return c;
}
template<class T> struct Vec { std::vector<unsigned char> m; T *p; size_t n; Vec (size_t n_, unsigned mis, T v = T (-777)) : m ((n_ + 32) * sizeof (T) + 64), n (n_) { uintptr_t u = ((uintptr_t) m.data() + 63) & ~uintptr_t (63); p = (T *) u + 8 + mis; for (long i = -8; i < long (n) + 8; i++) p[i] = v; } bool ok (T v = T (-777)) const { for (int i = 1; i <= 8; i++) if (p[-i] != v || p[n - 1 + i] != v) return false; return true; } };
template<class T> static void signal (Rng& g, T *x, size_t n)
{
  const int k = g.below (5); const T s = std::ldexp (T (1), g.range (-30, 30));
  for (size_t i = 0; i < n; i++) x[i] = (k == 0 ? g.sym() : k == 1 ? (i % 37 ? 0.f : g.sym()) : k == 2 ? 0.7f : k == 3 ? (i & 1 ? 1.f : -1.f) : float (std::sin (i * 0.13))) * s;
}
template<class T> struct Ck {
  std::string nm; LD noise; double worst = 0;
  bool operator() (const char *op, size_t i, LD got, LD want, LD level)
  {
    const LD eps = sizeof (T) == 8 ? 1.1e-16L : 6e-8L, t = 6 * eps * noise * level + (sizeof (T) == 8 ? 0 : 1e-41L), d = std::fabs (got - want);
    if (level > 0) worst = std::max (worst, double (d / (eps * noise * level)));
    if (d <= t) return true;
    M.viol (std::string (op) + ":" + nm, -1, "%s: %s: sample %zu is %.9Lg, the all-pass chains give %.9Lg (level %.3Lg)", nm.c_str(), op, i, got, want, level);
    return false;
  }
};
// memory filled with rubbish, aligned for SIMD members
template<class B> struct Place {
  void *m; B *b;
  Place (int fill) { if (posix_memalign (&m, 64, sizeof (B))) exit (3); memset (m, fill, sizeof (B)); b = new (m) B(); }
  ~Place() { b->~B(); free (m); }
  B *operator->() { return b; }
};
// every size up to 300 and sizes around larger powers of two
static std::vector<u32> dense (Rng& g)
{
  std::vector<u32> v; for (u32 n = 1; n <= 300; n++) v.push_back (n);
  for (u32 p = 512; p <= 8192; p *= 2) for (int d = -1; d <= 1; d++) v.push_back (p + d);
  for (size_t i = v.size(); i > 1; i--) std::swap (v[i - 1], v[g.below (i)]);
  return v;
}
static const size_t DENSE = 300 * 301 / 2 + 3 * (512 + 1024 + 2048 + 4096 + 8192);
static std::vector<u32> sizes (Rng& g, size_t total) { std::vector<u32> v; size_t s = 0; while (s < total) { u32 n = 1 + g.below (1u << g.range (0, 9)); n = std::min<size_t> (n, total - s); v.push_back (n); s += n; } return v; }

template<class B, class T> static void check_up (const char *what, int nc)
{
  Rng g (mix (mix (M.seed, nc), hash_str (what)));
  const std::string nm = std::string (what) + "-NC" + std::to_string (nc);
  for (int k = 0; k < (M.thorough ? 300 : 12); k++)
    {
      auto c = make_case<T> (g, nc); const bool all = k < 3; const size_t U = all ? DENSE : 400 + g.below (1200);
      M.at ("%s|-1|round %d", nm.c_str(), k);
      std::vector<T> x (U); signal (g, x.data(), U);
      Place<B> by_sample (0xff), by_block (0x7f), mixed (0), inpl (0x55), again (0x11);
      if (k % 3 == 1) { auto other = make_case<T> (g, nc); for (auto *b : { &by_sample, &by_block, &mixed, &inpl, &again }) if (b != &again) (*b)->set_coefs (other.coef.data()); }   // replaced before any processing
      for (auto *b : { &by_sample, &by_block, &mixed, &inpl, &again }) (*b)->set_coefs (c.coef.data());
      Ck<T> ck { nm, c.noise };
      std::vector<LD> want (2 * U), lev (2 * U);
      { Ref r (c.rc); for (size_t i = 0; i < U; i++) { want[2 * i] = r.chain (0, x[i]); want[2 * i + 1] = r.chain (1, x[i]); lev[2 * i] = lev[2 * i + 1] = r.peak; } }
      bool ok = true;
      for (size_t i = 0; ok && i < U; i++) { T a = -1, b = -1; by_sample->process_sample (a, b, x[i]); ok = ck ("process_sample", 2 * i, a, want[2 * i], lev[2 * i]) && ck ("process_sample", 2 * i + 1, b, want[2 * i + 1], lev[2 * i]); }
      auto blocks = [&] (B& b, const char *op, int mode) {
        size_t u = 0;
        for (u32 n : all ? dense (g) : sizes (g, U))
          {
            if (!ok) return;
            std::vector<T> out (2 * n);
            if (mode == 1 && g.below (2)) for (u32 i = 0; i < n; i++) b.process_sample (out[2 * i], out[2 * i + 1], x[u + i]);
            else if (mode == 2)     // documented: input may be the second half of the output block
              { Vec<T> buf (2 * n, 2 * g.below (4)); std::copy (&x[u], &x[u] + n, buf.p + n); b.process_block (buf.p, buf.p + n, n); std::copy (buf.p, buf.p + 2 * n, out.begin()); if (!buf.ok()) { M.viol ("canary:" + nm, -1, "%s: %s wrote outside its block", nm.c_str(), op); ok = false; } }
            else
              { Vec<T> in (n, g.below (4)), o (2 * n, g.below (4)); std::copy (&x[u], &x[u] + n, in.p); b.process_block (o.p, in.p, n); std::copy (o.p, o.p + 2 * n, out.begin());
                if (!o.ok() || !in.ok()) { M.viol ("canary:" + nm, -1, "%s: %s wrote outside its block", nm.c_str(), op); ok = false; } }
            for (u32 i = 0; ok && i < 2 * n; i++) ok = ck (op, 2 * u + i, out[i], want[2 * u + i], lev[2 * u + i]);
            u += n; M.stat ("block_calls", 1); M.eval (mix (mix (hash_str (nm), n), mix (mode, k)));
          }
      };
      blocks (*by_block.b, "process_block", 0); blocks (*mixed.b, "process_sample and process_block", 1); blocks (*inpl.b, "process_block with overlap", 2);
      // clear_buffers: back to the initial state; copies continue on their own
      if (ok)
        {
          by_block->clear_buffers();
          std::vector<T> o1 (2 * U), o2 (2 * U); by_block->process_block (o1.data(), x.data(), U); again->process_block (o2.data(), x.data(), U);
          for (size_t i = 0; i < 2 * U; i++) if (!(o1[i] == o2[i])) { M.viol ("clear:" + nm, -1, "%s: after clear_buffers() sample %zu is %g, a new filter gives %g", nm.c_str(), i, double (o1[i]), double (o2[i])); return; }
          B copy (*again.b); std::vector<T> z (200, T (0)), z1 (400), z2 (400);
          { B other; other.set_coefs (std::vector<double> (nc, 0.5).data()); other.process_block (z1.data(), x.data(), 99); other = copy; if (k % 2) copy = other; }
          copy.process_block (z1.data(), x.data(), 100); copy.clear_buffers(); std::fill (z1.begin(), z1.end(), T (0)); 
          again->process_block (z1.data(), z.data(), 200);
          Ref r (c.rc); for (size_t i = 0; i < U; i++) { r.chain (0, x[i]); r.chain (1, x[i]); }
          for (size_t i = 0; ok && i < 200; i++) { LD a = r.chain (0, 0), b = r.chain (1, 0); ok = ck ("after copying", 2 * i, z1[2 * i], a, r.peak) && ck ("after copying", 2 * i + 1, z1[2 * i + 1], b, r.peak); }
        }
      M.statmax (std::string ("worst_error_") + what, ck.worst); M.stat ("samples", U * 8);
      if (!ok) return;
      if (k == 0 && nc == 5) M.sample ("%s: %zu samples, %s coefficients", nm.c_str(), U, c.kind);
    }
}
template<class B, class T> static void check_down (const char *what, int nc)
{
  Rng g (mix (mix (M.seed, nc), hash_str (what)));
  const std::string nm = std::string (what) + "-NC" + std::to_string (nc);
  for (int k = 0; k < (M.thorough ? 300 : 12); k++)
    {
      auto c = make_case<T> (g, nc); const bool all = k < 3; const size_t U = all ? DENSE : 400 + g.below (1200);
      M.at ("%s|-1|round %d", nm.c_str(), k);
      std::vector<T> x (2 * U); signal (g, x.data(), 2 * U);
      Place<B> by_sample (0xff), by_block (0x7f), inpl (0), split_s (0x55), split_b (0x33), mixed (0x12), again (0x11);
      if (k % 3 == 1) { auto other = make_case<T> (g, nc); for (auto *b : { &by_sample, &by_block, &inpl, &split_s, &split_b, &mixed, &again }) if (b != &again) (*b)->set_coefs (other.coef.data()); }   // replaced before any processing
      for (auto *b : { &by_sample, &by_block, &inpl, &split_s, &split_b, &mixed, &again }) (*b)->set_coefs (c.coef.data());
      Ck<T> ck { nm, c.noise };
      std::vector<LD> lo (U), hi_ (U), lev (U);
      { Ref r (c.rc); for (size_t i = 0; i < U; i++) { LD a = r.chain (0, x[2 * i + 1]), b = r.chain (1, x[2 * i]); lo[i] = (a + b) / 2; hi_[i] = (a - b) / 2; lev[i] = r.peak; } }
      bool ok = true;
      for (size_t i = 0; ok && i < U; i++) ok = ck ("process_sample", i, by_sample->process_sample (&x[2 * i]), lo[i], lev[i]);
      for (size_t i = 0; ok && i < U; i++) { T l = -1, h = -1; split_s->process_sample_split (l, h, &x[2 * i]); ok = ck ("process_sample_split low", i, l, lo[i], lev[i]) && ck ("process_sample_split high", i, h, hi_[i], lev[i]); }
      auto blocks = [&] (B& b, const char *op, int mode) {
        size_t u = 0;
        for (u32 n : all ? dense (g) : sizes (g, U))
          {
            if (!ok) return;
            std::vector<T> l (n), h; bool canary = true;
            const int m = mode == 9 ? g.below (8) : mode;
            const T *src = &x[2 * u];
            if (m == 0) { Vec<T> in (2 * n, g.below (4)), o (n, g.below (4)); std::copy (src, src + 2 * n, in.p); b.process_block (o.p, in.p, n); std::copy (o.p, o.p + n, l.begin()); canary = o.ok() && in.ok(); for (u32 i = 0; i < 2 * n; i++) if (in.p[i] != src[i]) canary = false; }
            else if (m == 1) { Vec<T> buf (2 * n, g.below (4)); std::copy (src, src + 2 * n, buf.p); b.process_block (buf.p, buf.p, n); std::copy (buf.p, buf.p + n, l.begin()); canary = buf.ok(); }
            else if (m == 2) { const u32 gap = 1 + g.below (5); Vec<T> buf (2 * n + gap, g.below (4)); std::copy (src, src + 2 * n, buf.p + gap); b.process_block (buf.p, buf.p + gap, n); std::copy (buf.p, buf.p + n, l.begin()); canary = buf.ok(); }
            else if (m == 3) { Vec<T> in (2 * n, g.below (4)), o (n, g.below (4)), p (n, g.below (4)); std::copy (src, src + 2 * n, in.p); b.process_block_split (o.p, p.p, in.p, n); std::copy (o.p, o.p + n, l.begin()); h.assign (p.p, p.p + n); canary = o.ok() && p.ok() && in.ok(); }
            else if (m == 4) { Vec<T> in (2 * n, g.below (4)), p (n, g.below (4)); std::copy (src, src + 2 * n, in.p); b.process_block_split (in.p, p.p, in.p, n); std::copy (in.p, in.p + n, l.begin()); h.assign (p.p, p.p + n); canary = p.ok() && in.ok(); }
            else if (m == 5) { Vec<T> in (2 * n, g.below (4)), p (n, g.below (4)); std::copy (src, src + 2 * n, in.p); b.process_block_split (p.p, in.p, in.p, n); std::copy (p.p, p.p + n, l.begin()); h.assign (in.p, in.p + n); canary = p.ok() && in.ok(); }
            else if (m == 6) for (u32 i = 0; i < n; i++) l[i] = b.process_sample (src + 2 * i);
            else { h.resize (n); for (u32 i = 0; i < n; i++) b.process_sample_split (l[i], h[i], src + 2 * i); }
            if (!canary) { M.viol ("canary:" + nm, -1, "%s: %s changed memory outside its output", nm.c_str(), op); ok = false; return; }
            for (u32 i = 0; ok && i < n; i++) ok = ck (op, u + i, l[i], lo[u + i], lev[u + i]);
            for (u32 i = 0; ok && i < h.size(); i++) ok = ck ((std::string (op) + " high").c_str(), u + i, h[i], hi_[u + i], lev[u + i]);
            u += n; M.stat ("block_calls", 1); M.eval (mix (mix (hash_str (nm), n), mix (m, k)));
          }
      };
      blocks (*by_block.b, "process_block", 0); blocks (*inpl.b, "process_block in place", 1 + k % 2); blocks (*split_b.b, "process_block_split", 3 + k % 3); blocks (*mixed.b, "mixed calls", 9);
      if (ok)
        {
          by_block->clear_buffers(); split_b->clear_buffers();
          std::vector<T> o1 (U), o2 (U), o3 (U), o4 (U); by_block->process_block (o1.data(), x.data(), U); again->process_block (o2.data(), x.data(), U);
          for (size_t i = 0; i < U; i++) if (!(o1[i] == o2[i])) { M.viol ("clear:" + nm, -1, "%s: after clear_buffers() sample %zu is %g, a new filter gives %g", nm.c_str(), i, double (o1[i]), double (o2[i])); return; }
          B copy (*again.b); std::vector<T> z (400, T (0)), z1 (200);
          if (k % 2)
            { // a copied and assigned filter goes on like the original
              B other; other.set_coefs (std::vector<double> (nc, 0.5).data()); other.process_block (z1.data(), x.data(), 99); other = copy;
              std::vector<T> w1 (100), w2 (100); B copy2 (other); copy2.process_block (w1.data(), x.data(), 100); other.process_block (w2.data(), x.data(), 100);
              for (int i = 0; i < 100; i++) if (!(w1[i] == w2[i])) { M.viol ("copy:" + nm, -1, "%s: a copy gives %g, the assigned object %g", nm.c_str(), double (w1[i]), double (w2[i])); return; }
            }
          copy.process_block (z1.data(), x.data(), 100); copy.clear_buffers();
          again->process_block (z1.data(), z.data(), 200);
          Ref r (c.rc); for (size_t i = 0; i < U; i++) { r.chain (0, x[2 * i + 1]); r.chain (1, x[2 * i]); }
          for (size_t i = 0; ok && i < 200; i++) { LD a = r.chain (0, 0), b = r.chain (1, 0); ok = ck ("after copying", i, z1[i], (a + b) / 2, r.peak); }
        }
      M.statmax (std::string ("worst_error_") + what, ck.worst); M.stat ("samples", U * 7);
      if (!ok) return;
    }
}
template<int NC> static void check_nc (int idx)
{
  if (!M.mine (idx)) return;
  check_up<hi::Upsampler2xFpu<NC>, float> ("up-float", NC); check_down<hi::Downsampler2xFpu<NC>, float> ("down-float", NC);
  check_up<hi::Upsampler2xFpuTpl<NC, double>, double> ("up-double", NC); check_down<hi::Downsampler2xFpuTpl<NC, double>, double> ("down-double", NC);
#ifdef __SSE__
  check_up<hi::Upsampler2xSse<NC>, float> ("up-sse", NC); check_down<hi::Downsampler2xSse<NC>, float> ("down-sse", NC);
#endif
}
int main (int argc, char **argv)
{
  M.init (argc, argv, "C25");
  // parts are compiled in parallel
#if !defined (C25_PART) || C25_PART == 0
  check_nc<1> (0); check_nc<8> (7); check_nc<13> (12);
#endif
#if !defined (C25_PART) || C25_PART == 1
  check_nc<2> (1); check_nc<7> (6); check_nc<12> (11);
#endif
#if !defined (C25_PART) || C25_PART == 2
  check_nc<3> (2); check_nc<6> (5); check_nc<11> (10); 
#endif
#if !defined (C25_PART) || C25_PART == 3
  check_nc<4> (3); check_nc<5> (4); check_nc<9> (8); check_nc<10> (9);
#endif
#if defined (C25_PART) && C25_PART == 5
  check_nc<5> (4); 
#endif
#if defined (C25_PART) && C25_PART == 6
  check_nc<8> (7);
#endif
#if !defined (C25_PART) || C25_PART == 4
  check_nc<16> (13); check_nc<17> (14); check_nc<24> (15);
#endif
  return M.finish();
}
