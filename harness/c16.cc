// C16: ownership. Oracles: heap conservation (allocator log), bit-exact twin for streams that are moved around.
#include "mon.hh"
#if !MON_SLOW
#include "alloc.hh"
#endif
#include <type_traits>
#include <thread>
#include <system_error>
using namespace mon;
static Mon M;

#if !MON_SLOW
static void conserve (const Cfg& c)
{
  Rng g (mix (M.seed, c.index + 161));
  const size_t B = 3000;
  vf x = noise_signal (g, B * c.in_per()), y (B * c.out_per()), special;
  static const float kinds[] = { NAN, INFINITY, -INFINITY, 0.f, -0.f, 1e-40f, 3e38f, 1.f };
  for (int round = 0; round < (M.thorough ? 2000 : 240); round++)
    {
      M.at ("%s|%d|heap conservation, round %d", c.name().c_str(), c.index, round);
      const int kind = round % 8; const u32 n1 = g.below (100), n2 = g.below (B);
      // noise, and blocks that are filled with one special value, or contain some
      const int content = g.below (3); const float sv = kinds[g.below (8)];
      special = x; if (content == 1) std::fill (special.begin(), special.end(), sv); if (content == 2) for (auto& v : special) if (g.below (20) == 0) v = kinds[g.below (8)];
      auto use = [&] (Resampler2& r, u32 n) { r.process_block (special.data(), n * c.in_per(), y.data()); };
      auto mk = [&] { return Resampler2 (c.mode, c.ratio, Resampler2::Precision (c.prec), c.sse, c.filter); };
      alloc_mon::State s0 = alloc_mon::state();
      long one = 0, grown = 0, grownk = 0;
      {
        Resampler2 a (c.mode, c.ratio, Resampler2::Precision (c.prec), c.sse, c.filter);
        alloc_mon::State s1 = alloc_mon::state();
        switch (kind)
          {
          case 0: use (a, n1); break;
          case 1: for (int i = 0; i < 30; i++) { use (a, n1); a.reset(); use (a, n2); } break;
          case 2: { Resampler2 b (std::move (a)); use (b, n2); break; }
          case 3: { Resampler2 b = mk(); use (b, n1); b = std::move (a); use (b, n2); break; }
          case 4: { Resampler2 b = mk(); std::swap (a, b); use (a, n1); use (b, n2); break; }
          case 5: { std::vector<Resampler2> v; for (int i = 0; i < 9; i++) { v.push_back (mk()); use (v[i / 2], n1); } v.erase (v.begin() + 3); use (v[5], n2); break; }
          case 6: { std::unique_ptr<Resampler2> p (new Resampler2 (mk())), q (new Resampler2 (std::move (*p))); use (*q, n1); break; }
          case 7: { Resampler2 b (std::move (a)); a = mk(); use (a, n1); use (b, n1); b = std::move (a); a = std::move (b); use (a, n2); break; }
          }
        alloc_mon::State s2 = alloc_mon::state();
        one = s1.b - s0.b; if (kind < 2) { grown = s2.b - s1.b; grownk = s2.k - s1.k; }
      }
      alloc_mon::State s3 = alloc_mon::state();
      if (grown || grownk)
        M.viol ("grows:" + c.name(), c.index, "%s: memory of an instance changes by %ld bytes in %ld blocks during use", c.name().c_str(), grown, grownk);
      M.statmax ("bytes_of_one_instance", one);
      M.stat ("heap_blocks_observed", s3.a - s0.a); M.eval (mix (mix (c.index, round), mix (n1, n2)));
      if (s3.b != s0.b || s3.k != s0.k)
        { M.viol ("leak:" + c.name(), c.index, "%s: %ld bytes in %ld blocks are not freed (kind of use %d)", c.name().c_str(), s3.b - s0.b, s3.k - s0.k, kind); return; }
    }
  // many short lives, each with one block of another length, some reset, moved or unused
  M.at ("%s|%d|heap conservation, short lives", c.name().c_str(), c.index);
  auto ns = dense_sizes (g, c, 0, M.thorough ? 60000 : 2600, 0);
  long lives = 0;
  for (u32 n : ns)
    {
      if (n > B) n = n % B;
      alloc_mon::State s0 = alloc_mon::state();
      {
        Resampler2 a (c.mode, c.ratio, Resampler2::Precision (c.prec), c.sse, c.filter);
        if (n % 5) a.process_block (x.data(), n * c.in_per(), y.data());
        if (n % 3 == 0) a.reset();
        if (n % 4 == 0) { Resampler2 b (std::move (a)); if (n % 8 == 0) a = std::move (b); }
        if (n % 7 == 0 && (n % 4 || n % 8 == 0)) a.process_block (x.data(), n * c.in_per(), y.data());
      }
      alloc_mon::State s1 = alloc_mon::state(); lives++; M.eval (mix (mix (c.index, n), 1616));
      if (s1.b != s0.b || s1.k != s0.k)
        { M.viol ("leak-life:" + c.name(), c.index, "%s: %ld bytes in %ld blocks are not freed by instance number %ld of a row (block of %u units)", c.name().c_str(), s1.b - s0.b, s1.k - s0.k, lives, n); return; }
    }
  M.stat ("short_lives", lives);
}
#endif
#if !MON_SLOW
// the same in short-lived threads: what a thread keeps must be gone when it has ended
static void threads (const Cfg& c)
{
  Rng g (mix (M.seed, c.index + 163));
  M.at ("%s|%d|heap conservation, threads", c.name().c_str(), c.index);
  const size_t B = 300;
  vf x = noise_signal (g, B * c.in_per());
  std::unique_ptr<Resampler2> keep;
  auto work = [&] (int k)
    {
      vf y (B * c.out_per());
      auto a = c.make(); a->process_block (x.data(), x.size(), y.data());
      if (k % 3 == 1) { Resampler2 b (std::move (*a)); b.reset(); b.process_block (x.data(), x.size(), y.data()); }
      if (k % 3 == 2) { keep->process_block (x.data(), x.size(), y.data()); std::swap (keep, a); }   // created here, used and destroyed elsewhere
    };
  keep = c.make();
  long before = 0, blocks = 0; const int N = M.thorough ? 3000 : 90;
  for (int k = 0; k < N; k++)
    {
      try { std::thread t (work, k); t.join(); } catch (std::system_error&) { M.stat ("thread_failed", 1); return; }
      if (k == N / 3 - 1) { before = alloc_mon::state().b; blocks = alloc_mon::state().k; }
    }
  alloc_mon::State s = alloc_mon::state();
  M.stat ("threads", N); M.eval (mix (c.index, 164));
  // (thread stacks and the like come from mmap or are kept once)
  if (s.k - blocks >= N / 6) M.viol ("thread-leak:" + c.name(), c.index, "%s: %d threads that used instances and ended leave %ld bytes in %ld blocks", c.name().c_str(), 2 * N / 3, s.b - before, s.k - blocks);
}
#endif
static void moves (const Cfg& c, const std::vector<Cfg>& cs)
{
  Rng g (mix (M.seed, c.index + 162));
  for (int round = 0; round < (M.thorough ? 100 : MON_SLOW ? 2 : 20); round++)
    {
      auto ref = c.make();
      std::unique_ptr<Resampler2> cur = c.make();
      const int steps = 60; u64 hist = round; int nmoves = 0;
      for (int s = 0; s < steps; s++)
        {
          const int k = g.below (11); hist = mix (hist, k);
          M.at ("%s|%d|move kind %d, step %d", c.name().c_str(), c.index, k, s);
          const Cfg& oc = g.below (2) ? c : cs[g.below (cs.size())];
          switch (k)
            {
            case 0: { std::unique_ptr<Resampler2> n (new Resampler2 (std::move (*cur))); cur = std::move (n); nmoves++; break; }
            case 1: { auto n = oc.make(); vf a = noise_signal (g, oc.in_per() * 70), b (oc.out_per() * 70); n->process_block (a.data(), a.size(), b.data()); *n = std::move (*cur); cur = std::move (n); nmoves++; break; }
            case 2: { auto n = oc.make(); std::swap (*n, *cur); vf a = noise_signal (g, oc.in_per() * 30), b (oc.out_per() * 30); cur->process_block (a.data(), a.size(), b.data()); std::swap (cur, n); nmoves++; break; }
            case 3: { // inside a growing vector
                std::vector<Resampler2> v; v.push_back (std::move (*cur));
                for (int i = 0; i < 6; i++) { const Cfg& q = cs[g.below (cs.size())]; v.insert (g.below (2) ? v.begin() + 1 : v.end(), std::move (*q.make())); }
                cur.reset (new Resampler2 (std::move (v[0]))); v.clear(); nmoves += 4; break; }
            case 4: { // three-way rotation through a function by value
                auto pass = [] (Resampler2 r) { return r; };
                Resampler2 t = pass (pass (std::move (*cur))); *cur = std::move (t); nmoves += 3; break; }
            case 5: { cur->reset(); ref->reset(); break; }
            case 6: { // moved-from instance is destroyed or assigned to
                Resampler2 t (std::move (*cur)); *cur = std::move (*oc.make()); cur.reset(); cur.reset (new Resampler2 (std::move (t))); nmoves += 2; break; }
            case 9: std::swap (*cur, *cur); nmoves++; break;
            case 10: { // algorithms that move elements about
                std::vector<Resampler2> v; size_t at = g.below (7);
                for (size_t i = 0; i < 7; i++) if (i == at) v.push_back (std::move (*cur)); else v.push_back (std::move (*cs[g.below (cs.size())].make()));
                const size_t by = g.below (7); std::rotate (v.begin(), v.begin() + by, v.end()); at = (at + 7 - by) % 7;
                if (g.below (2)) { std::reverse (v.begin(), v.end()); at = 6 - at; }
                const size_t a = g.below (7), b = g.below (7); std::iter_swap (v.begin() + a, v.begin() + b); if (at == a) at = b; else if (at == b) at = a;
                if (at > 0) { v.erase (v.begin()); at--; } else v.insert (v.begin(), std::move (*c.make())), at++;
                cur.reset (new Resampler2 (std::move (v[at]))); nmoves += 9; break; }
            default: break;
            }
          const size_t n = g.below (3) ? g.below (60) : g.below (1500);
          Buf in (n * c.in_per(), 0), o1 (n * c.out_per(), 0), o2 (n * c.out_per(), 0);
          for (size_t i = 0; i < in.n; i++) in.p[i] = g.sym();
          ref->process_block (in.p, in.n, o1.p);
          cur->process_block (in.p, in.n, o2.p);
          size_t w;
          if (!same_bits (o1.p, o2.p, o1.n, &w)) { M.viol ("moved:" + c.name(), c.index, "%s: after a move (kind %d) output[%zu] = %.9g, the stream that was not moved has %.9g", c.name().c_str(), k, w, o2.p[w], o1.p[w]); return; }
          if (cur->delay() != ref->delay() || cur->order() != ref->order() || cur->sse_enabled() != ref->sse_enabled()) { M.viol ("moved-query:" + c.name(), c.index, "%s: queries differ after a move", c.name().c_str()); return; }
          M.stat ("samples_compared_bitwise", o1.n);
        }
      M.stat ("moves", nmoves); M.eval (mix (mix (c.index, round), hist), nmoves > 0);
    }
  M.sample ("%s: stream continues bitwise through move construction, assignment, swap, vector growth, by-value passing", c.name().c_str());
}
int main (int argc, char **argv)
{
  M.init (argc, argv, "C16");
  if (std::is_copy_constructible<Resampler2>::value || std::is_copy_assignable<Resampler2>::value) M.viol ("copyable", -1, "Resampler2 can be copied");
  auto cs = all_cfgs();
  // ratio 1 takes part as well
  for (int m = 0; m < 2; m++) cs.push_back ({ m ? Resampler2::DOWN : Resampler2::UP, 1, 12, true, Resampler2::FILTER_FIR, int (cs.size()) });
#if !MON_SLOW
  for (auto& c : cs) if (M.mine (c.index)) conserve (c);
  for (auto& c : cs) if (M.mine (c.index)) threads (c);
#endif
  for (auto& c : cs) if (M.mine (c.index)) moves (c, cs);
  return M.finish();
}
