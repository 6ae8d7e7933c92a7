// C15: real-time safety. mode=side: allocator and lock counters, system call trap (seccomp), FP environment, errno, stack depth.
// mode=work (build with -fsanitize-coverage=trace-pc): executed basic blocks per call as a measure of work.
#include "mon.hh"
#include "alloc.hh"
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stddef.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <linux/audit.h>
#include <immintrin.h>
using namespace mon;
static Mon M;

// ---- locks
static std::atomic<long> n_lock;
#define WRAP(fn, T) extern "C" int fn (T *m) noexcept { static int (*real) (T *) = nullptr; if (!real) real = (int (*) (T *)) dlsym (RTLD_NEXT, #fn); n_lock++; return real (m); }
WRAP (pthread_mutex_lock, pthread_mutex_t)
WRAP (pthread_mutex_trylock, pthread_mutex_t)
WRAP (pthread_rwlock_rdlock, pthread_rwlock_t)
WRAP (pthread_rwlock_wrlock, pthread_rwlock_t)
WRAP (sem_wait, sem_t)
extern "C" int pthread_spin_lock (pthread_spinlock_t *m) noexcept { static int (*real) (pthread_spinlock_t *) = nullptr; if (!real) real = (int (*) (pthread_spinlock_t *)) dlsym (RTLD_NEXT, "pthread_spin_lock"); n_lock++; return real (m); }

// ---- work
static long n_blocks;
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc() { n_blocks++; }

// ---- system calls
struct Shared { volatile long nr; volatile int stage; volatile long calls; volatile long done; volatile int kind; char what[200]; };
static Shared *sh;
static void on_sys (int, siginfo_t *si, void *) { sh->nr = si->si_syscall; syscall (SYS_exit_group, 42); }
static bool install_filter()
{
  struct sigaction sa; memset (&sa, 0, sizeof sa); sa.sa_sigaction = on_sys; sa.sa_flags = SA_SIGINFO; sigaction (SIGSYS, &sa, nullptr);
  struct sock_filter f[] = {
    BPF_STMT (BPF_LD | BPF_W | BPF_ABS, offsetof (struct seccomp_data, nr)),
    BPF_JUMP (BPF_JMP | BPF_JEQ | BPF_K, SYS_exit_group, 0, 1),
    BPF_STMT (BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
    BPF_STMT (BPF_RET | BPF_K, SECCOMP_RET_TRAP) };
  struct sock_fprog p = { 4, f };
  if (prctl (PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return false;
  return prctl (PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p) == 0;
}
static void __attribute__((noinline)) touch_stack (size_t n) { volatile char *a = (volatile char *) alloca (n); for (size_t i = 0; i < n; i += 512) a[i] = 1; }

static std::vector<u32> sizes_for (const Cfg& c, Rng& g)
{
  std::vector<u32> s = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 50, 51, 52, 53, 64, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 1100, 2047, 2048, 2049, 4096, 4100 };
  for (int i = 0; i < 30; i++) s.push_back (g.below (3000));
  for (size_t i = s.size(); i > 1; i--) std::swap (s[i - 1], s[g.below (i)]);
  (void) c;
  return s;
}

// blocks of all kinds of contents: noise, silence, NaN and infinite samples, denormals, overflow, constants, sparse samples
struct Contents
{
  std::vector<std::unique_ptr<Buf>> b;
  Contents (Rng& g, size_t n)
  {
    for (int k = 0; k < 9; k++)
      {
        b.emplace_back (new Buf (n)); float *p = b.back()->p;
        for (size_t i = 0; i < n; i++)
          switch (k)
            {
              case 0: p[i] = g.sym(); break;
              case 1: p[i] = 0; break;
              case 2: p[i] = g.below (40) ? g.sym() : g.below (2) ? NAN : INFINITY; break;
              case 3: p[i] = g.sym() * 1e-39f; break;
              case 4: p[i] = g.sym() * 3e38f; break;
              case 5: p[i] = 1; break;
              case 6: p[i] = g.below (60) ? 0 : g.sym() * 1e-3f; break;
              case 7: p[i] = g.sym() * 4; break;
              case 8: p[i] = -0.0f; break;
            }
      }
  }
  float *operator[] (size_t k) { return b[k % b.size()]->p; }
  static const char *name (size_t k) { static const char *n[] = { "noise", "silence", "NaN and infinite samples", "denormals", "huge samples", "constant", "sparse samples", "noise above full scale", "negative zeros" }; return n[k % 9]; }
};
static void syscalls_cfg (const Cfg& c)
{
  Rng g (mix (M.seed, c.index + 151));
  memset (sh, 0, sizeof *sh);
  fflush (nullptr);
  pid_t pid = fork();
  if (pid == 0)
    {
      const u32 mx = 5000;
      Contents in (g, mx * 8 + 8); Buf out (mx * 8 + 8);
      auto s = sizes_for (c, g); u32 kind = 0;
      setvbuf (stdout, nullptr, _IONBF, 0); setvbuf (stderr, nullptr, _IONBF, 0);
      auto r = c.make();
      auto never = c.make(), again = c.make();
      auto dense = dense_sizes (g, c, 118, 2100, 32768);
      vf din = noise_signal (g, 33000 * c.in_per()), dout (33000 * c.out_per());
      touch_stack (200000);
      if (!install_filter()) _exit (43);
      for (int rep = 0; rep < 9; rep++, kind++)
        for (u32 n : s)
          {
            kind++; sh->kind = kind;
            if (kind % 9 == 3 || kind % 9 == 1) { sh->stage = 2; r->reset(); }
            sh->stage = 1; r->process_block (in[kind] + (n & 3), n * c.in_per(), out.p + (n >> 2 & 3));
            sh->stage = 2; if ((n & 7) == 3) r->reset();
            sh->stage = 3; volatile double d = r->delay(); volatile u32 o = r->order(); volatile bool e = r->sse_enabled(); (void) d; (void) o; (void) e;
            sh->stage = 4; (void) Resampler2::find_precision_for_bits (n); (void) Resampler2::precision_name (Resampler2::Precision (c.prec)); (void) Resampler2::sse_available();
            sh->calls++;
          }
      // all pairs of small sizes, all sizes
      u32 at = 0;
      for (u32 n : dense)
        {
          if (at + n > 33000) at = g.below (3) * 5;
          if (at + n > 33000) at = 0;
          sh->stage = 8; sh->kind = 0; r->process_block (din.data() + at * c.in_per(), n * c.in_per(), dout.data() + at * c.out_per()); at += n;
          if (n <= 2100) { again->process_block (din.data(), n * c.in_per(), dout.data()); sh->stage = 2; again->reset(); }
          sh->calls++;
        }
      // rare events: something done only every nth time
      for (int i = 0; i < 70000; i++)
        {
          sh->stage = 6; r->process_block (in[i >> 10] + (i & 1023), c.in_per(), out.p);
          sh->stage = 7; never->reset(); if (i < 3000 || (i & 63) == 0) r->reset();
          sh->calls++;
        }
      sh->stage = 5; never->reset();
      sh->done = 1;
      syscall (SYS_exit_group, 0);
    }
  int st = 0; waitpid (pid, &st, 0);
  M.stat ("calls_under_syscall_trap", sh->calls);
  if (WIFEXITED (st) && WEXITSTATUS (st) == 43) { M.stat ("seccomp_unavailable", 1); return; }
  if (WIFEXITED (st) && WEXITSTATUS (st) == 42)
    {
      static const char *stages[] = { "?", "process_block", "reset", "queries", "static functions", "reset of an unused instance", "process_block (many calls)", "reset (many calls)", "process_block (all sizes)" };
      M.viol ("syscall:" + c.name(), c.index, "%s: system call %ld during %s (call %ld, %s)", c.name().c_str(), long (sh->nr), stages[sh->stage], long (sh->calls), Contents::name (sh->kind));
    }
  else if (!sh->done) M.viol ("died:" + c.name(), c.index, "%s: process ended (status %x) in stage %d after %ld calls", c.name().c_str(), st, sh->stage, long (sh->calls));
  M.eval (mix (c.index, 1));
}
static unsigned x87cw() { unsigned short cw; __asm__ volatile ("fnstcw %0" : "=m" (cw)); return cw; }
static void set_x87 (unsigned short cw) { __asm__ volatile ("fldcw %0" : : "m" (cw)); }

static void side_cfg (const Cfg& c)
{
  Rng g (mix (M.seed, c.index + 152));
  const u32 mx = 5000;
  Contents in (g, mx * 8 + 8); Buf out (mx * 8 + 8);
  auto s = sizes_for (c, g); u32 kind = 0;
  auto r = c.make();
  // rounding mode, flush-to-zero, denormals-are-zero (masks stay on, results differ in the last bit only)
  const unsigned mxcsrs[] = { 0x1f80, 0x1f80 | 0x2000, 0x1f80 | 0x4000, 0x1f80 | 0x6000, 0x1f80 | 0x8040, 0x1f80 | 0x8000 | 0x2000, 0x1d00 | 0x80 | 0x200 };
  for (unsigned k = 0; k < sizeof (mxcsrs) / sizeof (mxcsrs[0]); k++, kind++)
    for (u32 n : s)
      {
        kind++;
        if (kind % 9 == 3 || kind % 9 == 1) r->reset();
        M.at ("%s|%d|side effects, block of %u units (%s), mxcsr %x", c.name().c_str(), c.index, n, Contents::name (kind), mxcsrs[k]);
        const unsigned ctl = 0xffc0;
        const unsigned short cw0 = k % 2 ? 0x37f : 0x27f;
        const int what = n % 5 == 4 ? 1 : 0;
        errno = 12345; const unsigned keep = _mm_getcsr(), kcw = x87cw();
        const long a0 = alloc_mon::n_alloc, f0 = alloc_mon::n_free, l0 = n_lock;
        set_x87 (cw0); _mm_setcsr (mxcsrs[k]);
        r->process_block (in[kind] + (n & 3), n * c.in_per(), out.p + (n >> 2 & 3));
        if (what) r->reset();
        volatile double d = r->delay(); volatile u32 o = r->order(); volatile bool e = r->sse_enabled(); (void) d; (void) o; (void) e;
        const unsigned after = _mm_getcsr(), acw = x87cw(); const int er = errno;
        _mm_setcsr (keep); set_x87 (kcw);
        const long a1 = alloc_mon::n_alloc, f1 = alloc_mon::n_free, l1 = n_lock;
        const std::string nm = c.name();
        if (a1 != a0 || f1 != f0) M.viol ("heap:" + nm, c.index, "%s: block of %u units (%s): %ld allocations, %ld frees", nm.c_str(), n, Contents::name (kind), a1 - a0, f1 - f0);
        if (l1 != l0) M.viol ("lock:" + nm, c.index, "%s: block of %u units (%s): %ld locks taken", nm.c_str(), n, Contents::name (kind), l1 - l0);
        if (er != 12345) M.viol ("errno:" + nm, c.index, "%s: block of %u units (%s): errno changed to %d", nm.c_str(), n, Contents::name (kind), er);
        if ((after & ctl) != (mxcsrs[k] & ctl)) M.viol ("mxcsr:" + nm, c.index, "%s: block of %u units: SSE control word %04x before, %04x after the call", nm.c_str(), n, mxcsrs[k] & ctl, after & ctl);
        if (acw != cw0) M.viol ("x87:" + nm, c.index, "%s: block of %u units: x87 control word %04x before, %04x after the call", nm.c_str(), n, cw0, acw);
        M.eval (mix (mix (c.index, k), n), n > 0); M.stat ("calls_observed", 1);
      }
  {
    auto dense = dense_sizes (g, c, 118, 4200, 100000);
    vf din = noise_signal (g, 100000 * c.in_per()), dout (100000 * c.out_per()); auto again = c.make();
    M.at ("%s|%d|side effects, all pairs of small sizes, all sizes", c.name().c_str(), c.index);
    errno = 12345;
    long a0 = alloc_mon::n_alloc, f0 = alloc_mon::n_free, l0 = n_lock; const unsigned cs = _mm_getcsr() & 0xffc0, cw = x87cw(); u32 prev = 0;
    u32 at = 0;
    for (u32 n : dense)
      {
        if (at + n > 100000 || g.below (50) == 0) at = g.below (3) * 5;      // mostly one block behind the other
        if (at + n > 100000) at = 0;
        r->process_block (din.data() + at * c.in_per(), n * c.in_per(), dout.data() + at * c.out_per()); at += n;
        if (n <= 2200) { again->process_block (din.data(), n * c.in_per(), dout.data()); again->reset(); volatile double d = again->delay(); (void) d; }
        if (alloc_mon::n_alloc != a0 || alloc_mon::n_free != f0 || n_lock != l0 || errno != 12345 || (_mm_getcsr() & 0xffc0) != cs || x87cw() != cw)
          {
            const long a1 = alloc_mon::n_alloc, f1 = alloc_mon::n_free, l1 = n_lock; const int er = errno; const unsigned ncs = _mm_getcsr() & 0xffc0;
            M.viol ("sizes:" + c.name(), c.index, "%s: block of %u units after a block of %u units: %ld allocations, %ld frees, %ld locks, errno %d, SSE control word %04x (before %04x)", c.name().c_str(), n, prev, a1 - a0, f1 - f0, l1 - l0, er, ncs, cs);
            _mm_setcsr (0x1f80); break;
          }
        prev = n;
      }
    M.stat ("calls_observed", dense.size()); M.eval (mix (c.index, 78));
  }
  // rare events: something done only every nth time
  {
    auto never = c.make();
    M.at ("%s|%d|side effects, many calls", c.name().c_str(), c.index);
    errno = 12345;
    const long a0 = alloc_mon::n_alloc, f0 = alloc_mon::n_free, l0 = n_lock;
    int at = -1;
    for (int i = 0; i < 70000; i++)
      {
        r->process_block (in[i >> 10] + (i & 1023), c.in_per(), out.p);
        never->reset(); volatile double d = never->delay(); (void) d;
        if (i < 3000 || (i & 63) == 0) r->reset();
        if (at < 0 && (alloc_mon::n_alloc != a0 || alloc_mon::n_free != f0 || n_lock != l0 || errno != 12345)) at = i;
      }
    const long a1 = alloc_mon::n_alloc, f1 = alloc_mon::n_free, l1 = n_lock; const int er = errno;
    if (at >= 0) M.viol ("rare:" + c.name(), c.index, "%s: %ld allocations, %ld frees, %ld locks, errno %d in 70000 calls of process_block and reset, the first at call %d", c.name().c_str(), a1 - a0, f1 - f0, l1 - l0, er, at);
    M.eval (mix (c.index, 77)); M.stat ("calls_observed", 140000);
  }
  M.stat ("allocator_events_outside_calls", alloc_mon::n_alloc);
}
// ---- stack
struct StackJob { const Cfg *c; std::vector<u32> sizes; std::vector<long> depth; float *in, *out; char *lo; size_t len; };
static void __attribute__((noinline)) paint_below (char *lo, char *sp) { for (volatile char *q = lo; q < sp; q++) *q = 0x6b; }
static void *stack_thread (void *p)
{
  StackJob& j = *(StackJob *) p;
  auto r = j.c->make();
  volatile char here = 0; char *const frame = (char *) __builtin_frame_address (0); char *top = (char *) ((uintptr_t) frame - 2048); (void) here;
  for (u32 n : j.sizes)
    {
      paint_below (j.lo, top);
      r->process_block (j.in, n * j.c->in_per(), j.out);
      if (n % 3 == 0) r->reset();
      r->delay();
      char *q = j.lo; while (q < top && *q == 0x6b) q++;
      j.depth.push_back (frame - q);
    }
  return nullptr;
}
static void stack_cfg (const Cfg& c)
{
  const size_t L = 768 * 1024;
  M.at ("%s|%d|stack depth", c.name().c_str(), c.index);
  std::vector<u32> s = { 1, 0, 3, 40, 64, 130, 200, 300, 511, 1000, 1024, 1025, 2050, 4096, 10000, 120000 };
  char *m = (char *) mmap (nullptr, L, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  vf in (120000 * c.in_per()), out (120000 * c.out_per());
  StackJob j { &c, s, {}, in.data(), out.data(), m + 4096, L };
  mprotect (m, 4096, PROT_NONE);
  pthread_attr_t at; pthread_attr_init (&at); pthread_attr_setstack (&at, m, L);
  pthread_t t; if (pthread_create (&t, &at, stack_thread, &j)) { M.stat ("stack_thread_failed", 1); return; }
  pthread_join (t, nullptr);
  munmap (m, L);
  long small = 0;
  for (size_t i = 0; i < j.depth.size(); i++)
    {
      M.statmax ("stack_bytes", j.depth[i]); M.eval (mix (mix (c.index, 8), s[i]), s[i] > 0);
      if (s[i] <= 1024) small = std::max (small, j.depth[i]);
      if (j.depth[i] > 65536) { M.viol ("stack:" + c.name(), c.index, "%s: block of %u units needs %ld bytes of stack", c.name().c_str(), s[i], j.depth[i]); break; }
      if (s[i] > 1024 && j.depth[i] > small + 4096) { M.viol ("stackgrowth:" + c.name(), c.index, "%s: block of %u units needs %ld bytes of stack, small blocks %ld", c.name().c_str(), s[i], j.depth[i], small); break; }
    }
}
// ---- work
static long work (Resampler2& r, const Cfg& c, float *in, float *out, u32 n) { long b = n_blocks; r.process_block (in, n * c.in_per(), out); return n_blocks - b; }
static void work_cfg (const Cfg& c)
{
  Rng g (mix (M.seed, c.index + 153));
  const u32 mx = 70000; const std::string nm = c.name();
  Buf in (mx * c.in_per()), out (mx * c.out_per()); for (size_t i = 0; i < in.n; i++) in.p[i] = g.sym();
  M.at ("%s|%d|work", nm.c_str(), c.index);
  const std::vector<u32> ns = { 1, 4, 16, 50, 64, 200, 512, 1024, 3000 };
  auto r = c.make();
  std::vector<long> first;
  for (u32 n : ns) { r->reset(); work (*r, c, in.p, out.p, 64); first.push_back (work (*r, c, in.p, out.p, n)); }
  if (first[3] < 3) { M.stat ("no_work_counter", 1); return; }
  // the same blocks after ever longer histories
  u64 processed = 0;
  for (int h = 0; h < (M.thorough ? 400 : 24); h++)
    {
      const u32 big = h % 3 ? g.below (mx) : mx;
      if (h % 5 == 4) for (int i = 0; i < 3000; i++) r->process_block (in.p, c.in_per(), out.p);
      r->process_block (in.p, big * c.in_per(), out.p); processed += big;
      if (h == 12) { for (size_t i = 0; i < 3 * c.in_per(); i++) in.p[i] = 1e30f; r->process_block (in.p, 3 * c.in_per(), out.p); for (size_t i = 0; i < 3 * c.in_per(); i++) in.p[i] = g.sym(); }
      for (size_t k = 0; k < ns.size(); k++)
        {
          long w = work (*r, c, in.p, out.p, ns[k]);
          M.eval (mix (mix (c.index, h), ns[k])); M.stat ("calls_with_counted_work", 1);
          if (w > first[k] * 1.25 + 20)
            { M.viol ("history:" + nm, c.index, "%s: a block of %u units takes %ld basic blocks after %llu units, %ld at the start of the stream", nm.c_str(), ns[k], w, (unsigned long long) processed, first[k]); return; }
        }
      const long d0 = n_blocks; r->delay(); const long d1 = n_blocks; if (d1 - d0 > 200) { M.viol ("query:" + nm, c.index, "%s: delay() takes %ld basic blocks", nm.c_str(), d1 - d0); return; }
    }
  // linear in the block length
  double per0 = 0;
  for (u32 n : { 2048u, 4096u, 8192u, 16384u, 32768u, 65536u })
    {
      double per = double (work (*r, c, in.p, out.p, n)) / n;
      if (!per0) per0 = per;
      if (per > per0 * 1.2) { M.viol ("linear:" + nm, c.index, "%s: %.1f basic blocks per unit in a block of %u units, %.1f for 2048", nm.c_str(), per, n, per0); return; }
    }
  M.statmax ("basic_blocks_per_unit", per0);
  M.sample ("%s: %.1f basic blocks per unit, unchanged after %llu units", nm.c_str(), per0, (unsigned long long) processed);
}
// ---- progress: a thread is stopped somewhere inside a call; no other instance may have to wait for it (this shows locks of any kind)
static std::atomic<int> hold, stopped, progress, finished; static std::atomic<int> in_call;
static void on_stop (int) { const int e = errno; stopped = 1 + in_call; while (hold) sched_yield(); stopped = 0; errno = e; }
struct Victim { const std::vector<Cfg> *cs; u64 seed; std::atomic<int> quit, which, ops; };
static void *victim_thread (void *p)
{
  Victim& v = *(Victim *) p; Rng g (v.seed);
  vf in (64 * 8), out (64 * 8); for (auto& x : in) x = g.sym();
  while (!v.quit)
    {
      const int k = g.below (v.cs->size()); const Cfg& c = (*v.cs)[k];
      in_call = 0; auto r = c.make(); v.which = k;                  // creating may lock (memory), it is never stopped there
      const int len = 1 + g.below (60);
      for (int i = 0; i < 300 && !v.quit; i++)
        {
          in_call = 1; r->process_block (in.data(), len * c.in_per(), out.data());
          in_call = 2; if (i % 9 == 0) r->reset(); volatile double d = r->delay(); (void) d;
          in_call = 3; (void) Resampler2::find_precision_for_bits (i); (void) Resampler2::precision_name (Resampler2::PREC_96DB);
          v.ops++;
        }
      in_call = 0;
    }
  return nullptr;
}
static int main_tid; static clockid_t main_clock;
static char main_state()
{
  char n[64], b[600]; snprintf (n, sizeof n, "/proc/self/task/%d/stat", main_tid); FILE *f = fopen (n, "r"); if (!f) return '?';
  size_t k = fread (b, 1, sizeof b - 1, f); fclose (f); b[k] = 0; const char *q = strrchr (b, ')'); return q && q[1] ? q[2] : '?';
}
// a caller that has to wait sleeps, or burns processor time; one that merely gets no processor does neither
static void *watch_thread (void *)
{
  int last = -1; double waited = 0, cpu = 0;
  auto cpu_ms = [] { struct timespec ts = { 0, 0 }; clock_gettime (main_clock, &ts); return ts.tv_sec * 1e3 + ts.tv_nsec * 1e-6; };
  while (!finished)
    {
      usleep (20000);
      if (progress != last || !stopped) { last = progress; waited = 0; cpu = cpu_ms(); continue; }
      const char st = main_state(); if (st == 'S' || st == 'D') waited += 20;
      if (waited + cpu_ms() - cpu > 8000) { last = progress = -1000000; hold = 0; }   // let the stopped thread go: does that help?
    }
  return nullptr;
}
static void suspend (int shard)
{
  Rng g (mix (M.seed, 158 + shard));
  auto cs = all_cfgs();
  struct sigaction sa; memset (&sa, 0, sizeof sa); sa.sa_handler = on_stop; sa.sa_flags = SA_RESTART; sigaction (SIGUSR2, &sa, nullptr);
  std::vector<std::unique_ptr<Resampler2>> rs; vf in (64 * 8), out (64 * 8); for (auto& x : in) x = g.sym();
  auto use = [&] (size_t k, int len) { rs[k]->process_block (in.data(), len * cs[k].in_per(), out.data()); rs[k]->reset(); volatile double d = rs[k]->delay(); (void) d; (void) Resampler2::find_precision_for_bits (len); (void) Resampler2::precision_name (Resampler2::PREC_96DB); };
  for (auto& c : cs) rs.push_back (c.make());
  for (size_t k = 0; k < cs.size(); k++) use (k, 40);
  Victim v { &cs, mix (M.seed, 159), {}, {}, {} };
  M.at ("all|%d|threads stopped inside a call", 0);
  main_tid = syscall (SYS_gettid); pthread_getcpuclockid (pthread_self(), &main_clock);
  pthread_t t, w; pthread_create (&t, nullptr, victim_thread, &v); pthread_create (&w, nullptr, watch_thread, nullptr);
  const int N = M.thorough ? 40000 : 3000; long inside = 0;
  for (int i = 0; i < N; i++)
    {
      const int before = v.ops; for (long spin = g.below (2000); spin--;) { volatile int x = 0; (void) x; }
      for (int y = 0; y < 1000 && (v.ops == before || !in_call); y++) sched_yield();
      if (!in_call) continue;
      hold = 1; pthread_kill (t, SIGUSR2);
      while (!stopped) sched_yield();
      if (stopped == 1) { hold = 0; while (stopped) sched_yield(); continue; }       // it was not inside a call
      inside++;
      const int op = stopped - 1; const size_t same = v.which; bool helped = false;
      for (int j = 0; j < 5 && !helped; j++)
        {
          const size_t k = j == 0 ? same : g.below (cs.size());
          progress = i * 8 + j; use (k, 1 + g.below (60)); helped = progress < 0;
          M.eval (mix (mix (same, k), op)); M.stat ("calls_beside_a_stopped_thread", 1);
          if (helped) M.viol ("wait:" + cs[k].name(), k, "%s: a call did not return while another thread, using an instance of its own (%s), was stopped inside %s, and returned when that thread went on: calls wait for each other", cs[k].name().c_str(), cs[same].name().c_str(), op == 1 ? "process_block" : op == 2 ? "reset() or delay()" : "a static function");
        }
      hold = 0; while (stopped) sched_yield();
      if (helped) break;
    }
  v.quit = 1; pthread_join (t, nullptr); finished = 1; pthread_join (w, nullptr);
  M.stat ("threads_stopped_inside_a_call", inside);
  M.sample ("a thread was stopped %ld times inside a call, five calls on other instances each time", inside);
}
int main (int argc, char **argv)
{
  M.init (argc, argv, "C15");
  if (M.mode == "suspend") { suspend (M.shard); return M.finish(); }
  sh = (Shared *) mmap (nullptr, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto cs = all_cfgs();
  for (int m = 0; m < 2; m++) cs.push_back ({ m ? Resampler2::DOWN : Resampler2::UP, 1, 12, true, Resampler2::FILTER_FIR, int (cs.size()) });
  for (auto& c : cs)
    if (M.mine (c.index))
      {
        if (M.mode == "work") { if (c.ratio > 1) work_cfg (c); }
        else { side_cfg (c); stack_cfg (c); syscalls_cfg (c); }
      }
  return M.finish();
}
