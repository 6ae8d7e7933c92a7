// C05: isolation. Each instance runs a recorded program alone (transcript), then interleaved with others / in threads.
#include "mon.hh"
#include <system_error>
#include <signal.h>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include <deque>
#include <unistd.h>
#include <sys/wait.h>
using namespace mon;
static Mon M;

struct Op { int kind; u32 units; u64 seed; unsigned mi, mo; };    // 0 process, 1 reset, 2 queries
struct Prog { Cfg c; std::vector<Op> ops; std::vector<u64> expect; };

static Prog make_prog (Rng& g, const Cfg& c, int n_ops, u32 maxu)
{
  Prog p { c, {}, {} };
  for (int i = 0; i < n_ops; i++)
    {
      Op o { g.below (20) == 0 ? 1 : g.below (20) == 1 ? 2 : 0, g.below (8) == 0 ? g.below (maxu) : g.below (2) ? g.below (100) : g.below (12), g.next(), g.below (4), g.below (4) };
      p.ops.push_back (o);
    }
  return p;
}
static u64 run_op (Resampler2& r, const Cfg& c, const Op& o, Buf& in, Buf& out)
{
  if (o.kind == 1) { r.reset(); return 1; }
  if (o.kind == 2) { double d = r.delay(); u32 x = r.order() * 2 + r.sse_enabled(); return mix (hash_bytes (&d, 8), x); }
  const size_t ni = o.units * c.in_per(), no = o.units * c.out_per();
  if (in.n < ni + 4) in.alloc (ni * 2 + 64);
  if (out.n < no + 4) out.alloc (no * 2 + 64);
  Rng g (o.seed);
  float *pi = in.p + o.mi, *po = out.p + o.mo;
  for (size_t i = 0; i < ni; i++) pi[i] = g.sym();
  r.process_block (pi, ni, po);
  return hash_bytes (po, no * 4);
}
static void solo_here (Prog& p)
{
  auto r = p.c.make(); Buf in, out;
  for (auto& o : p.ops) p.expect.push_back (run_op (*r, p.c, o, in, out));
}
/* "alone" means: in a process in which no other instance ever existed. A helper process, forked before anything is created,
 * forks one such process for each program. */
static int zw = -1, zr = -1;
static bool rd (int fd, void *b, size_t n) { char *c = (char *) b; while (n) { ssize_t k = read (fd, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
static bool wr (int fd, const void *b, size_t n) { const char *c = (const char *) b; while (n) { ssize_t k = write (fd, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
static void start_zygote()
{
  int a[2], b[2];
  if (pipe (a) || pipe (b)) return;
  pid_t z = fork();
  if (z < 0) return;
  if (z == 0)
    {
      close (a[1]); close (b[0]);
      u32 h[2];
      while (rd (a[0], h, 8))
        {
          Prog p { all_cfgs()[h[0]], std::vector<Op> (h[1]), {} };
          if (!rd (a[0], p.ops.data(), h[1] * sizeof (Op))) _exit (1);
          pid_t c = fork();
          if (c == 0) { solo_here (p); u32 ok = 1; bool w = wr (b[1], &ok, 4) && wr (b[1], p.expect.data(), p.expect.size() * 8); _exit (w ? 0 : 1); }
          int st = 0; if (c > 0) waitpid (c, &st, 0);
          if (c < 0 || st != 0) { u32 bad = 0; wr (b[1], &bad, 4); }
        }
      _exit (0);
    }
  close (a[0]); close (b[1]); zw = a[1]; zr = b[0];
}
static void solo (Prog& p)
{
  if (zw >= 0)
    {
      u32 h[2] = { u32 (p.c.index), u32 (p.ops.size()) }, ok = 0;
      p.expect.resize (p.ops.size());
      if (wr (zw, h, 8) && wr (zw, p.ops.data(), p.ops.size() * sizeof (Op)) && rd (zr, &ok, 4) && ok == 1 && rd (zr, p.expect.data(), p.expect.size() * 8))
        { M.stat ("solo_processes", 1); return; }
      p.expect.clear();
    }
  solo_here (p);     // (a program that crashes alone crashes here, too, and is reported)
}

static void interleave (Rng& g, const std::vector<Cfg>& cs, int round)
{
  const int N = 2 + g.below (14);
  std::vector<Prog> ps;
  Cfg c0 = cs[g.below (cs.size())];
  for (int i = 0; i < N; i++)
    {
      ps.push_back (make_prog (g, round % 2 ? c0 : cs[g.below (cs.size())], 20 + g.below (60), 2500));
      M.at ("%s|%d|solo run", ps[i].c.name().c_str(), round);
      solo (ps[i]);
    }
  std::vector<std::unique_ptr<Resampler2>> rs (N); std::vector<size_t> pos (N, 0);
  std::vector<std::unique_ptr<Resampler2>> junk;
  Buf in, out; u64 order = round % 2;
  int left = N;
  while (left)
    {
      int i = g.below (N);
      if (pos[i] >= ps[i].ops.size()) { continue; }
      M.at ("%s|%d|interleaved", ps[i].c.name().c_str(), round);
      if (!rs[i]) rs[i] = ps[i].c.make();
      u64 h = run_op (*rs[i], ps[i].c, ps[i].ops[pos[i]], in, out);
      order = mix (order, i); M.stat ("interleaved_operations", 1);
      if (h != ps[i].expect[pos[i]])
        { M.viol ("interleave:" + ps[i].c.name(), round, "%s: operation %zu differs when %d other instances are used in between", ps[i].c.name().c_str(), pos[i], N - 1); return; }
      if (++pos[i] == ps[i].ops.size()) { left--; if (g.below (2)) rs[i].reset(); }
      // create, use and destroy unrelated instances
      if (g.below (6) == 0)
        {
          const Cfg& jc = g.below (2) ? ps[i].c : cs[g.below (cs.size())];
          junk.push_back (jc.make());
          Rng q (g.next()); size_t u = q.below (50);
          vf a = noise_signal (q, u * jc.in_per(), 1e3f), b (u * jc.out_per());
          junk.back()->process_block (a.data(), a.size(), b.data());
          if (g.below (3) == 0) junk.back()->reset();
          if (junk.size() > 3) junk.erase (junk.begin() + g.below (junk.size()));
        }
    }
  M.eval (mix (order, round), N > 1);
  if (round < 2) M.sample ("%d instances (%s), interleaving hash %016llx", N, round % 2 ? "all of one specification" : "random specifications", (unsigned long long) order);
}

// threads: each thread owns several instances; some are handed over between threads; queries run concurrently
static void threads (Rng& g, const std::vector<Cfg>& cs, int round, int T, int n_ops)
{
  struct Item { std::unique_ptr<Resampler2> r; Prog *p; size_t pos; int last; };
  std::deque<Prog> ps; Cfg c0 = cs[g.below (cs.size())];
  const int N = T * 3;
  for (int i = 0; i < N; i++) { ps.push_back (make_prog (g, round % 2 ? c0 : cs[g.below (cs.size())], n_ops, MON_SLOW ? 300 : 3000)); solo (ps.back()); }
  M.at ("%s|%d|%d threads", round % 2 ? c0.name().c_str() : "mixed", round, T);
  std::mutex mu; std::deque<std::unique_ptr<Item>> q; std::atomic<int> left { N }; std::atomic<int> bad { -1 }; std::atomic<long> handover { 0 }; std::atomic<u64> orderh { 1 };
  for (auto& p : ps) q.push_back (std::unique_ptr<Item> (new Item { nullptr, &p, 0, -1 }));
  auto shared = c0.make();
  std::atomic<int> ready { 0 };
  std::vector<u64> seeds; for (int t = 0; t < T; t++) seeds.push_back (g.next());
  auto worker = [&] (int t)
    {
      Rng rg (seeds[t]); Buf in, out;
      ready++; while (ready < T) std::this_thread::yield();
      while (left > 0)
        {
          std::unique_ptr<Item> it;
          { std::lock_guard<std::mutex> l (mu); if (!q.empty()) { it = std::move (q.front()); q.pop_front(); } }
          if (!it) { std::this_thread::yield(); continue; }
          if (!it->r) it->r = it->p->c.make();
          if (it->last >= 0 && it->last != t) handover++;
          it->last = t;
          int burst = 1 + rg.below (20);
          while (burst-- && it->pos < it->p->ops.size())
            {
              u64 h = run_op (*it->r, it->p->c, it->p->ops[it->pos], in, out);
              if (h != it->p->expect[it->pos]) bad = it->p->c.index;
              it->pos++;
              if (rg.below (8) == 0)
                {
                  volatile double d = shared->delay(); volatile u32 o = shared->order(); (void) d; (void) o; (void) shared->sse_enabled();
                  (void) Resampler2::find_precision_for_bits (rg.below (30)); (void) Resampler2::precision_name (Resampler2::PREC_96DB); (void) Resampler2::sse_available();
                }
              if (rg.below (16) == 0) { auto tmp = cs[rg.below (cs.size())].make(); tmp->reset(); }
              if (rg.below (200) == 0) (void) Resampler2::test_filter_impl (false);
            }
          orderh = mix (orderh, u64 (t));
          if (it->pos == it->p->ops.size()) { it->r.reset(); left--; }
          else { std::lock_guard<std::mutex> l (mu); q.push_back (std::move (it)); }
        }
    };
  std::vector<std::thread> th;
  for (int t = 0; t < T; t++) th.emplace_back (worker, t);
  for (auto& t : th) t.join();
  M.eval (mix (orderh, round + 5000)); M.stat ("thread_handovers", handover); M.stat ("threaded_operations", double (N) * n_ops);
  if (bad >= 0) M.viol ("threads:" + cs[bad].name(), round, "%s: output in a multi-threaded run differs from the solo run (%d threads, %d instances)", cs[bad].name().c_str(), T, N);
}

// several threads process their own instance of one specification at full speed
static void parallel (Rng& g, const Cfg& c, int T)
{
  M.at ("%s|%d|parallel streams", c.name().c_str(), c.index);
  const size_t U = MON_SLOW ? 3000 : 12000;
  std::vector<vf> x, ref, y;
  std::vector<u32> sched = random_sizes (g, U, MON_SLOW ? 1200 : 600);
  for (int t = 0; t < T; t++)
    {
      x.push_back (noise_signal (g, U * c.in_per())); ref.push_back (vf (U * c.out_per())); y.push_back (ref.back());
      auto r = c.make(); run_all (*r, c, x[t].data(), U, ref[t].data(), sched);
    }
  std::atomic<int> go { 0 };
  std::vector<std::thread> th; std::atomic<int> bad { 0 };
  const int reps = MON_SLOW ? 1 : M.thorough ? 60 : 4;
  for (int t = 0; t < T; t++)
    th.emplace_back ([&, t] {
      go++; while (go < T) {}
      std::unique_ptr<Resampler2> r;
      for (int k = 0; k < reps; k++)
        {
          if (!r || k % 2) r = c.make(); else r->reset();
          run_all (*r, c, x[t].data(), U, y[t].data(), sched);
          if (!same_bits (y[t].data(), ref[t].data(), y[t].size())) bad++;
        }
    });
  for (auto& t : th) t.join();
  M.eval (mix (c.index, 31)); M.stat ("parallel_streams", T * reps);
  if (bad) M.viol ("parallel:" + c.name(), c.index, "%s: %d parallel streams in different threads influence each other", c.name().c_str(), T);
}

// very many instances of one specification at the same time, and very many created while one is in use
static void crowd (Rng& g, const Cfg& c)
{
  const int K = 6, N = M.thorough ? 20000 : 1500;
  std::vector<Prog> ps;
  for (int k = 0; k < K; k++) { ps.push_back (make_prog (g, c, 12, 150)); M.at ("%s|%d|solo run", c.name().c_str(), c.index); solo (ps[k]); }
  struct Inst { std::unique_ptr<Resampler2> r; size_t pos = 0; };
  std::vector<Inst> is (N); std::vector<int> left (N); for (int i = 0; i < N; i++) left[i] = i;
  Buf in, out; long live = 0, peak = 0;
  auto step = [&] (int i, const char *when) {
    Prog& p = ps[i % K]; Inst& t = is[i];
    M.at ("%s|%d|%s, instance %d", c.name().c_str(), c.index, when, i);
    if (run_op (*t.r, c, p.ops[t.pos], in, out) == p.expect[t.pos]) { t.pos++; return true; }
    M.viol ("crowd:" + c.name(), c.index, "%s: operation %zu of an instance differs when %ld other instances exist (%s)", c.name().c_str(), t.pos, live - 1, when);
    return false;
  };
  for (int i = 0; i < N; i++) { is[i].r = c.make(); peak = std::max (peak, ++live); if (!step (i, "crowd")) return; }
  while (!left.empty())
    {
      const size_t j = g.below (left.size()); const int i = left[j];
      if (!step (i, "crowd")) return;
      M.stat ("interleaved_operations", 1);
      if (is[i].pos == ps[i % K].ops.size()) { left[j] = left.back(); left.pop_back(); if (g.below (3)) { is[i].r.reset(); live--; } }
    }
  M.eval (mix (c.index, 8800)); M.statmax ("instances_alive_at_once", peak);
  is.clear(); is.resize (K);
  for (int k = 0; k < K; k++) { is[k].r = c.make(); for (int n = 0; n < 4; n++) if (!step (k, "before many others are created")) return; }
  live = K + 1;
  const int total = M.thorough ? 300000 : 66000;
  for (int i = 0; i < total; i++)
    {
      auto r = c.make();
      if (i % 500 == 0) { vf a = noise_signal (g, 20 * c.in_per(), 100), b (20 * c.out_per()); r->process_block (a.data(), a.size(), b.data()); if (i % 1000) r->reset(); }
    }
  for (int k = 0; k < K; k++) while (is[k].pos < ps[k].ops.size()) if (!step (k, "after many others were created and destroyed")) return;
  for (int k = 0; k < K; k++) { is[k] = Inst(); is[k].r = c.make(); while (is[k].pos < ps[k].ops.size()) if (!step (k, "created after many others")) return; }
  M.eval (mix (c.index, 8801)); M.stat ("instances_created", total + N);
  // handed on from threads that have ended, and used by many threads that live at the same time
  is.clear(); is.resize (K);
  std::atomic<int> bad { 0 };
  auto tstep = [&] (int k, int n) { Buf i2, o2; while (n-- && is[k].pos < ps[k].ops.size()) { if (run_op (*is[k].r, c, ps[k].ops[is[k].pos], i2, o2) != ps[k].expect[is[k].pos]) bad++; is[k].pos++; } };
  for (int part = 0; part < 4; part++)
    { std::thread t ([&] { for (int k = 0; k < K; k++) { if (!part) is[k].r = c.make(); tstep (k, part == 3 ? 100 : 3); } }); t.join(); }
  if (bad) { M.viol ("ended-thread:" + c.name(), c.index, "%s: output differs when the thread that created or used the instance before has ended", c.name().c_str()); return; }
  const int T = 150;
  std::vector<std::thread> th; std::atomic<int> started { 0 }; std::atomic<bool> quit { false };
  is.clear(); is.resize (T); for (int i = 0; i < T; i++) left.push_back (i);
  for (int t = 0; t < T; t++) try {
    th.emplace_back ([&, t] {
      Buf i2, o2; Prog& p = ps[t % K];
      is[t].r = c.make(); started++;
      for (int n = 0; n < 2; n++) { if (run_op (*is[t].r, c, p.ops[n], i2, o2) != p.expect[n]) bad++; }
      for (int n = 0; n < 100000 && started < T && !quit; n++) std::this_thread::yield();      // all threads exist and have used their instance
      for (size_t n = 2; n < p.ops.size(); n++) { if (run_op (*is[t].r, c, p.ops[n], i2, o2) != p.expect[n]) bad++; }
    }); } catch (std::system_error&) { quit = true; break; }     // no more threads on this machine
  for (auto& t : th) t.join();
  if (bad) { M.viol ("many-threads:" + c.name(), c.index, "%s: output differs when %d threads use one instance each", c.name().c_str(), T); return; }
  M.eval (mix (c.index, 8802)); M.statmax ("threads_alive_at_once", th.size());
}
// the very first use of the library in a process is made by several threads at once
static void first (const std::vector<Cfg>& cs, int k)
{
  Rng g (mix (M.seed, 90000 + k));
  const int T = 3, kind = k / int (cs.size());
  std::vector<Cfg> use;
  for (int t = 0; t < T; t++) use.push_back (kind == 0 ? cs[k % cs.size()] : kind == 1 && t % 2 == 0 ? cs[k % cs.size()] : cs[g.below (cs.size())]);
  M.at ("%s|%d|first use in a process by %d threads", use[0].name().c_str(), k, T);
  pid_t p = fork();
  if (p < 0) { M.stat ("fork_failed", 1); return; }
  if (!p)
    {
      const size_t U = 150;
      std::vector<vf> y (T); std::vector<vf> x (T);
      for (int t = 0; t < T; t++) { x[t] = noise_signal (g, U * use[t].in_per()); y[t].resize (U * use[t].out_per()); }
      std::atomic<int> ready { 0 };
      const int extra = g.below (4);
      auto run = [&] (int t, vf& out) {
        if (extra == 1) { (void) Resampler2::sse_available(); (void) Resampler2::find_precision_for_bits (t); (void) Resampler2::precision_name (Resampler2::PREC_96DB); }
        if (extra == 2 && !Resampler2::test_filter_impl (false)) _exit (4);
        auto r = use[t].make();
        (void) r->delay();
        r->process_block (x[t].data(), 50 * use[t].in_per(), out.data());
        if (extra == 3) { r->reset(); r->process_block (x[t].data(), 50 * use[t].in_per(), out.data()); }
        r->process_block (&x[t][50 * use[t].in_per()], (U - 50) * use[t].in_per(), &out[50 * use[t].out_per()]);
        PandaResampler::AlignedArray<float> a (10); PandaResampler::AlignedArray<float> b (a); b = a;
      };
      std::vector<std::thread> th;
      try { for (int t = 0; t < T; t++) th.emplace_back ([&, t] { ready++; for (int n = 0; n < 1000000 && ready < T; n++) std::this_thread::yield(); run (t, y[t]); }); } catch (std::system_error&) { _exit (0); }
      for (auto& t : th) t.join();
      for (int t = 0; t < T; t++) { vf z (y[t].size()); run (t, z); if (!same_bits (z.data(), y[t].data(), z.size())) _exit (3); }
      _exit (0);
    }
  int st = 0;
  while (waitpid (p, &st, 0) < 0) ;
  if (WIFEXITED (st) && (WEXITSTATUS (st) == 3 || WEXITSTATUS (st) == 4)) { M.viol ("first:" + use[0].name(), k, "%s: %s when the first use of the library is made by %d threads at once", use[0].name().c_str(), WEXITSTATUS (st) == 3 ? "output differs" : "the self test fails", T); return; }
  if (WIFSIGNALED (st)) { signal (WTERMSIG (st), SIG_DFL); raise (WTERMSIG (st)); }
  if (WEXITSTATUS (st)) _exit (WEXITSTATUS (st));      // sanitizer report on stderr
  M.stat ("processes_with_concurrent_first_use", 1); M.eval (mix (k, 90001));
}
int main (int argc, char **argv)
{
  M.init (argc, argv, "C05");
#if !MON_SLOW
  if (M.mode == "interleave" || M.mode == "threads" || M.mode == "crowd") start_zygote();
#endif
  auto cs = all_cfgs();
  if (M.mode == "interleave")
    {
      int R = M.thorough ? 20000 : 2000;
      for (int i = 0; i < R; i++) if (M.mine (i)) { Rng g (mix (M.seed, 50000 + i)); interleave (g, cs, i); }
    }
  else if (M.mode == "first")
    {
      for (int k = 0; k < int (cs.size()) * (M.thorough ? 40 : 3); k++) if (M.mine (k)) first (cs, k);
    }
  else if (M.mode == "crowd")
    for (auto& c : cs) { if (M.mine (c.index)) { Rng g (mix (M.seed, 80000 + c.index)); crowd (g, c); } }
  else if (M.mode == "threads")
    {
      int R = MON_SLOW ? (M.thorough ? 400 : 24) : M.thorough ? 2000 : 60;
      for (int i = 0; i < R; i++) if (M.mine (i)) { Rng g (mix (M.seed, 60000 + i)); threads (g, cs, i, 3 + i % 3, MON_SLOW ? 40 : 120); }
    }
  else
    for (auto& c : cs) if (M.mine (c.index)) { Rng g (mix (M.seed, 70000 + c.index)); parallel (g, c, 3); }
  return M.finish();
}
