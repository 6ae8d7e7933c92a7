// C26: every allocation made while objects are constructed or copied fails once (or all from there on). Oracles: exception type,
// heap balance, element registry, transcript of the objects that exist meanwhile.
#include "mon.hh"
#include "alloc.hh"
#include <deque>
#include <new>
using namespace mon;
using PandaResampler::AlignedArray;
static Mon M;
namespace am = alloc_mon;
static long live_elems = 0, total_elems = 0; static long throw_after = -1;
struct Elem            // owns memory from its default construction on
{
  int *p;
  Elem() : p (new int (7)) { live_elems++; total_elems++; }
  Elem (const Elem& o) : p (new int (*o.p)) { live_elems++; total_elems++; }
  Elem& operator= (const Elem& o) { int *q = new int (*o.p); delete p; p = q; return *this; }
  ~Elem() { delete p; live_elems--; }
  bool operator== (const Elem& o) const { return *p == *o.p; }
};
// runs f with the k-th allocation failing, until it succeeds. f returns the new object through a deleter-owning handle
template<class F> static void inject (const std::string& what, int idx, int max_k, bool forever, F f)
{
  for (int k = 0; k < max_k; k++)
    {
      M.at ("%s|%d|allocation %d fails%s", what.c_str(), idx, k, forever ? " and all after it" : "");
      const am::State s0 = am::state(); const long e0 = live_elems, nf0 = am::n_failed;
      int got = 0;    // 1 bad_alloc, 2 other
      am::fail_forever = forever; am::fail_at = k;
      try { f(); } catch (const std::bad_alloc&) { got = 1; } catch (...) { got = 2; }
      am::fail_at = -1; am::fail_forever = false;
      const long failed = am::n_failed - nf0; const am::State s1 = am::state();
      M.eval (mix (mix (hash_str (what), k), forever), failed > 0);
      if (got == 2) { M.viol ("type:" + what, idx, "%s: exception other than std::bad_alloc when allocation %d fails", what.c_str(), k); return; }
      if (failed && got == 0) { M.viol ("ignored:" + what, idx, "%s: allocation %d failed, but no exception was raised", what.c_str(), k); return; }
      if (!failed && got) { M.viol ("spurious:" + what, idx, "%s: std::bad_alloc without a failed allocation", what.c_str()); return; }
      if (live_elems != e0) { M.viol ("elements:" + what, idx, "%s: %ld elements not destroyed when allocation %d fails", what.c_str(), live_elems - e0, k); return; }
      if (s1.k != s0.k || s1.b != s0.b) { M.viol ("leak:" + what, idx, "%s: %ld blocks, %ld bytes not released when allocation %d fails", what.c_str(), s1.k - s0.k, s1.b - s0.b, k); return; }
      if (failed) M.stat ("allocation_failures_injected", 1);
      else { M.stat ("successes_after_failures", 1); M.statmax ("allocations_of_one_object", k); return; }
    }
}
static void check_cfg (const Cfg& c)
{
  const std::string nm = c.name(); Rng g (mix (M.seed, c.index + 261));
  // an instance in use while others fail to be constructed
  auto a = c.make(), ref = c.make();
  const u32 n = 50 + g.below (500); vf x = noise_signal (g, n * c.in_per()), y (n * c.out_per()), z (y.size());
  auto step = [&] (const char *when) {
    for (auto& v : x) v = g.sym();
    a->process_block (x.data(), x.size(), y.data()); ref->process_block (x.data(), x.size(), z.data());
    if (!same_bits (y.data(), z.data(), y.size())) M.viol ("intact:" + nm, c.index, "%s: an existing instance is damaged %s", nm.c_str(), when);
    M.stat ("intact_checks", 1);
  };
  step ("at the start");
  for (int fv = 0; fv < 2; fv++)
    {
      // the reference instance must not be touched by what happens here: it is made from the same specification, too
      inject (nm, c.index, 200, fv, [&] { Resampler2 r (c.mode, c.ratio, Resampler2::Precision (c.prec), c.sse, c.filter); });
      step ("by a failed construction");
      inject (nm + " new", c.index, 200, fv, [&] { Resampler2 *p = new Resampler2 (c.mode, c.ratio, Resampler2::Precision (c.prec), c.sse, c.filter); delete p; });
      inject (nm + " two", c.index, 200, fv, [&] { Resampler2 p (c.mode, c.ratio, Resampler2::Precision (c.prec), c.sse, c.filter), q (c.up() ? Resampler2::DOWN : Resampler2::UP, c.ratio, Resampler2::Precision (c.prec), c.sse, c.filter); });
      step ("by failed constructions");
    }
  // a later attempt works like an undisturbed one
  auto late = c.make(), late2 = c.make();
  (void) late2;
  for (auto& v : x) v = g.sym();
  ref->reset(); late->process_block (x.data(), x.size(), y.data()); ref->process_block (x.data(), x.size(), z.data());
  if (!same_bits (y.data(), z.data(), y.size())) M.viol ("later:" + nm, c.index, "%s: an instance constructed after failures differs", nm.c_str());
}
template<class T> static void arrays (const char *tn, int idx, std::function<T (int)> mk)
{
  Rng g (mix (M.seed, idx + 262));
  for (size_t n : { size_t (0), size_t (1), size_t (2), size_t (7), size_t (33), size_t (100), size_t (g.below (200)) })
    for (int fv = 0; fv < 2; fv++)
      {
        const std::string what = std::string ("AlignedArray<") + tn + "> " + std::to_string (n);
        std::vector<T> v; for (size_t i = 0; i < n; i++) v.push_back (mk (i));
        AlignedArray<T> src (v); std::vector<T> w (3, mk (99)); AlignedArray<T> dst (w);
        const int K = 3 * n + 20;
        auto intact = [&] (const char *when, bool dstold) {
          bool ok = src.size() == n && (!dstold || dst.size() == 3);
          for (size_t i = 0; ok && i < n; i++) ok = src[i] == v[i];
          for (size_t i = 0; ok && dstold && i < 3; i++) ok = dst[i] == w[i];
          if (!ok) M.viol ("intact:" + what, idx, "%s: existing arrays are damaged %s", what.c_str(), when);
          M.stat ("intact_checks", 1);
        };
        inject (what + " construct", idx, K, fv, [&] { AlignedArray<T> a (n); }); intact ("by a failed construction", true);
        inject (what + " from vector", idx, K, fv, [&] { AlignedArray<T> a (v); }); intact ("by a failed construction", true);
        inject (what + " copy", idx, K, fv, [&] { AlignedArray<T> a (src); }); intact ("by a failed copy", true);
        for (int k = 0; k < K; k++)
          {   // assignment: the target keeps its old contents if it fails
            M.at ("%s|%d|assignment, allocation %d fails", what.c_str(), idx, k);
            const am::State s0 = am::state(); const long e0 = live_elems, nf0 = am::n_failed; bool bad = false;
            am::fail_forever = fv; am::fail_at = k;
            try { dst = src; } catch (const std::bad_alloc&) { bad = true; }
            am::fail_at = -1; am::fail_forever = false;
            const bool failed = am::n_failed > nf0; const am::State s1 = am::state();
            M.eval (mix (mix (hash_str (what), k), 50 + fv), failed);
            if (failed != bad) { M.viol ("assign:" + what, idx, "%s: assignment, allocation %d fails: %s", what.c_str(), k, bad ? "spurious exception" : "no exception"); break; }
            if (failed && (s1.k != s0.k || s1.b != s0.b || live_elems != e0)) { M.viol ("assign-leak:" + what, idx, "%s: assignment, allocation %d fails: %ld blocks, %ld elements lost", what.c_str(), k, s1.k - s0.k, live_elems - e0); break; }
            if (failed) { intact ("by a failed assignment", true); M.stat ("allocation_failures_injected", 1); continue; }
            bool ok = dst.size() == n; for (size_t i = 0; ok && i < n; i++) ok = dst[i] == v[i];
            if (!ok) M.viol ("assign-later:" + what, idx, "%s: assignment with memory available gives wrong contents", what.c_str());
            break;
          }
        intact ("by assignments", false);
        // containers of arrays
        inject (what + " vector of arrays", idx, 4 * K, fv, [&] { std::vector<AlignedArray<T>> q; for (int i = 0; i < 3; i++) q.push_back (src); });
      }
  // sizes that no machine can hold (no such object comes into being, so nothing may be written)
  for (size_t n : { ~size_t (0), ~size_t (0) / sizeof (T), ~size_t (0) / sizeof (T) - 1, ~size_t (0) / sizeof (T) + 1, ~size_t (0) / sizeof (T) + 2, (~size_t (0) - 126) / sizeof (T), (~size_t (0) - 126) / sizeof (T) + 1, (~size_t (0) >> 1) / sizeof (T), (~size_t (0) >> 1) + 1, (~size_t (0) >> 2) + 1 })
    {
      M.at ("AlignedArray<%s>|%d|%zu elements", tn, idx, n);
      if (sizeof (T) == 1 && n < (~size_t (0) >> 2)) continue;
      bool bad = false; const am::State s0 = am::state(); const long e0 = live_elems, t0 = total_elems;
      try { volatile size_t m = n; AlignedArray<T> a (m); } catch (const std::bad_alloc&) { bad = true; } catch (...) {}
      const am::State s1 = am::state(); M.eval (mix (mix (n, idx), 444)); M.stat ("impossible_sizes", 1);
      if (!bad) { M.viol (std::string ("size:") + tn, idx, "AlignedArray<%s> of %zu elements: no std::bad_alloc", tn, n); break; }
      if (live_elems != e0 || total_elems != t0 || s0.k != s1.k) { M.viol (std::string ("size-leak:") + tn, idx, "AlignedArray<%s> of %zu elements: leak", tn, n); break; }
    }
}
struct Big { float f[40]; Big() : f() {} bool operator== (const Big& o) const { return !memcmp (f, o.f, sizeof f); } };
int main (int argc, char **argv)
{
  M.init (argc, argv, "C26");
  // set up the exception machinery before the balance is watched
  for (int i = 0; i < 3; i++) try { throw std::bad_alloc(); } catch (...) {}
  auto cs = all_cfgs();
  for (int m = 0; m < 2; m++) cs.push_back ({ m ? Resampler2::DOWN : Resampler2::UP, 1, 12, true, Resampler2::FILTER_FIR, int (cs.size()) });
  for (auto& c : cs) if (M.mine (c.index) && c.ratio > 1) check_cfg (c);
  if (M.mine (1000)) arrays<float> ("float", 1000, [] (int i) { return float (i) + 0.5f; });
  if (M.mine (1001)) arrays<char> ("char", 1001, [] (int i) { return char (i); });
  if (M.mine (1002)) arrays<Elem> ("Elem", 1002, [] (int i) { Elem e; *e.p = i; return e; });
  if (M.mine (1003)) arrays<std::string> ("string", 1003, [] (int i) { return std::string (i % 60, 'x'); });
  if (M.mine (1004)) arrays<std::deque<int>> ("deque", 1004, [] (int i) { return std::deque<int> (i % 300, 3); });
  if (M.mine (1005)) arrays<Big> ("Big", 1005, [] (int i) { Big b; b.f[i % 40] = i; return b; });
  if (M.mine (1006)) arrays<double> ("double", 1006, [] (int i) { return i * 0.25; });
  return M.finish();
}
