// C13: output is a function of specification and input blocks only.
// mode=msan (MemorySanitizer build): poisoned output and surroundings, shadow of every output sample is checked.
// mode=fill: heap, stack and output contents are varied inside one process, bitwise comparison.
// mode=dump: hashes of all outputs from processes with different environments; mode=cmp compares them.
#include "mon.hh"
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
#endif
#endif
#ifndef MSAN
#include "alloc.hh"
#include <atomic>
#include <thread>
#include <sched.h>
#include <time.h>
#endif
using namespace mon;
static Mon M;

#ifndef MSAN
// every environment variable somebody asks for exists, with another value in each process; the clock differs by months
extern char **environ;
static std::atomic<long> n_env_questions;
static const char *env_value (const char *name)
{
  const size_t n = strlen (name);
  for (char **e = environ; e && *e; e++) if (!strncmp (*e, name, n) && (*e)[n] == '=') return *e + n + 1;
  return nullptr;
}
extern "C" char *getenv (const char *name) noexcept
{
  const char *v = env_value (name), *tag = env_value ("MON_TAG");
  if (v || !tag || !strncmp (name, "MON_", 4) || !strncmp (name, "LC_", 3)) return (char *) v;
  n_env_questions++;
  switch (tag[1]) { case '1': return (char *) "1"; case '2': return (char *) "0"; case '3': return (char *) "off"; }
  return nullptr;
}
extern "C" char *secure_getenv (const char *name) noexcept { return getenv (name); }
extern "C" time_t time (time_t *t) noexcept
{
  struct timespec ts; clock_gettime (CLOCK_REALTIME, &ts);
  const char *tag = env_value ("MON_TAG");
  const time_t v = ts.tv_sec + (tag ? (tag[1] - '0') * 7654321 : 0);
  if (t) *t = v;
  return v;
}
#endif
static __attribute__((noinline)) void paint_stack (unsigned char v, bool random)
{
  volatile unsigned char a[160 * 1024]; u32 s = v * 77777 + 5;
  for (size_t i = 0; i < sizeof a; i++) { if (random) { s = s * 1664525 + 1013904223; a[i] = s >> 24; } else a[i] = v; }
}
struct Plan { std::vector<u32> sizes; std::vector<u32> mis; std::vector<int> reset; vf x; size_t units; };
static Plan make_plan (const Cfg& c, Rng& g, size_t target)
{
  Plan p; p.units = 0;
  while (p.units < target)
    {
      u32 n = g.below (5) ? g.below (70) : g.below (4) ? g.below (700) : g.below (3000);
      p.sizes.push_back (n); p.mis.push_back (g.below (16)); p.reset.push_back (g.below (40) == 0); p.units += n;
    }
  p.x = mixed_signal (g, p.units * c.in_per(), 40);
  return p;
}
// runs the plan, hash per call and the values
static void run_plan (const Cfg& c, const Plan& p, int fill, std::vector<u64>& h, vf *vals)
{
  unsigned char pv = fill >= 0 ? fill : 0x3c;
  paint_stack (pv, fill == -2);
  auto r = c.make();
  size_t u = 0; Rng q (fill + 100);
  std::vector<std::unique_ptr<char[]>> junk;
  for (size_t k = 0; k < p.sizes.size(); k++)
    {
      size_t n = p.sizes[k], ni = n * c.in_per(), no = n * c.out_per();
      u32 pat = fill == 0 ? 0 : fill == 0xff ? 0xffffffffu : fill == 0xa5 ? 0x7f800000u : u32 (q.next());
      Buf in (ni, p.mis[k] & 3, pat), out (no, p.mis[k] >> 2, pat);
      std::copy (&p.x[u * c.in_per()], &p.x[u * c.in_per()] + ni, in.p);
      for (size_t i = 0; i < no; i++) memcpy (out.p + i, &pat, 4);
      if (p.reset[k]) r->reset();
      if (k % 7 == 0) { paint_stack (pv, fill == -2); junk.emplace_back (new char[1 + q.below (5000)]); }
      r->process_block (in.p, ni, out.p);
      h.push_back (hash_bytes (out.p, no * 4));
      if (vals) vals->insert (vals->end(), out.p, out.p + no);
      u += n;
    }
  double d = r->delay(); h.push_back (hash_bytes (&d, 8)); h.push_back (r->order() * 2 + r->sse_enabled());
}

#ifdef MSAN
static void msan_cfg (const Cfg& c)
{
  Rng g (mix (M.seed, c.index + 131));
  Plan p = make_plan (c, g, M.thorough ? 60000 : 9000);
  M.at ("%s|%d|MemorySanitizer", c.name().c_str(), c.index);
  for (int round = 0; round < 2; round++)
    {
      paint_stack (1, false);
      auto r = c.make();
      size_t u = 0;
      for (size_t k = 0; k < p.sizes.size(); k++)
        {
          size_t n = p.sizes[k], ni = n * c.in_per(), no = n * c.out_per();
          Buf in (ni, p.mis[k] & 3), out (no, p.mis[k] >> 2);
          // everything around the input block and the whole output memory is uninitialised
          __msan_poison (in.p - Buf::PAD, Buf::PAD * 4); __msan_poison (in.p + ni, Buf::PAD * 4);
          __msan_poison (out.p - Buf::PAD, (no + 2 * Buf::PAD) * 4);
          std::copy (&p.x[u * c.in_per()], &p.x[u * c.in_per()] + ni, in.p);
          if (p.reset[k]) r->reset();
          M.at ("%s|%d|MemorySanitizer, call %zu, %zu input samples", c.name().c_str(), c.index, k, ni);
          r->process_block (in.p, ni, out.p);
          intptr_t bad = no ? __msan_test_shadow (out.p, no * 4) : -1;
          if (bad >= 0) { M.viol ("shadow:" + c.name(), c.index, "%s: call %zu (%zu input samples): output[%ld] depends on uninitialised memory", c.name().c_str(), k, ni, long (bad / 4)); return; }
          M.eval (mix (mix (c.index, k), mix (n, round)), n > 0); M.stat ("msan_output_samples_checked", no);
          u += n;
        }
      M.at ("%s|%d|MemorySanitizer, queries", c.name().c_str(), c.index);
      double d = r->delay(); u32 o = r->order(); bool e = r->sse_enabled();
      __msan_check_mem_is_initialized (&d, 8); __msan_check_mem_is_initialized (&o, 4); __msan_check_mem_is_initialized (&e, 1);
      Resampler2 m2 (std::move (*r)); m2.reset(); d += m2.delay();
      if (d < 0) M.stat ("negative", 1);
    }
  if (c.index < 3) { M.at ("selftest|%d|MemorySanitizer", c.index); if (!Resampler2::test_filter_impl (false)) M.viol ("selftest", -1, "self test fails"); }
}
#else
static void fill_cfg (const Cfg& c)
{
  Rng g (mix (M.seed, c.index + 132));
  for (int round = 0; round < (M.thorough ? 40 : 4); round++)
    {
      Plan p = make_plan (c, g, 9000);
      std::vector<u64> ref; vf rv;
      const int fills[] = { 0x00, 0xff, 0xa5, -2, 0x7f };
      for (int f : fills)
        {
          M.at ("%s|%d|memory filled with %d", c.name().c_str(), c.index, f);
          alloc_mon::fill = f; alloc_mon::fill_seed = u32 (g.next());
          std::vector<u64> h; vf v; run_plan (c, p, f, h, &v);
          alloc_mon::fill = -1;
          M.stat ("outputs_compared", v.size()); M.eval (mix (mix (c.index, round), f + 1000), f != 0);
          if (f == 0) { ref = h; rv = v; continue; }
          if (h != ref)
            {
              size_t w = 0; bool same = same_bits (v.data(), rv.data(), std::min (v.size(), rv.size()), &w);
              M.viol ("fill:" + c.name(), c.index, "%s: %s[%zu] = %.9g with memory contents %d, %.9g with zeroed memory", c.name().c_str(), same ? "query/sign" : "output", w, same ? 0 : v[w], f, same ? 0 : rv[w]);
              return;
            }
        }
    }
  M.sample ("%s: heap, stack and output pre-filled with 00, ff, a5, 7f and random bytes: outputs bitwise equal", c.name().c_str());
}
// AlignedArray is part of the public interface: value-initialised whatever the heap contains
static void dump()
{
  const char *tag = getenv ("MON_TAG"); if (!tag) exit (3);
  Rng e (hash_str (tag));
  FILE *f = fopen ((M.dump + "/dump_" + tag).c_str(), "wb"); if (!f) exit (3);
  auto cs = all_cfgs();
  // different earlier use of the library and order of creation
  int t = atoi (tag + 1);
  if (t == 1) for (int i = 0; i < 200; i++) { auto& c = cs[e.below (cs.size())]; auto r = c.make(); vf x (e.below (300) * c.in_per(), NAN), y (x.size() * 8 + 8); r->process_block (x.data(), x.size(), y.data()); }
  if (t == 2) { for (int i = 0; i < 5; i++) Resampler2::test_filter_impl (false); srand (12345); }
  if (t == 3) { alloc_mon::fill = -2; alloc_mon::fill_seed = 99; setenv ("OMP_NUM_THREADS", "3", 1); }
  std::vector<std::vector<u64>> all (cs.size());
  auto record = [&] {
  for (size_t k = 0; k < cs.size(); k++)
    {
      size_t i = t % 2 ? cs.size() - 1 - k : k;
      Rng g (mix (M.seed, i + 133));
      Plan p = make_plan (cs[i], g, 3000);
      M.at ("%s|%d|process %s", cs[i].name().c_str(), cs[i].index, tag);
      run_plan (cs[i], p, t == 0 ? 0 : 0xa5, all[i], nullptr);
    }
  };
  if (t == 3) { cpu_set_t one; CPU_ZERO (&one); CPU_SET (sched_getcpu(), &one); sched_setaffinity (0, sizeof one, &one); }
  if (t == 2) { std::thread th (record); th.join(); } else record();
  M.stat ("environment_variables_asked_for", n_env_questions);
  for (auto& v : all) { u64 n = v.size(); fwrite (&n, 8, 1, f); fwrite (v.data(), 8, n, f); }
  fclose (f);
}
static void cmp()
{
  auto cs = all_cfgs();
  std::vector<std::vector<u64>> ref;
  int have = 0;
  for (int t = 0; t < 4; t++)
    {
      FILE *f = fopen ((M.dump + "/dump_p" + std::to_string (t)).c_str(), "rb");
      if (!f) continue;
      std::vector<std::vector<u64>> d;
      for (size_t i = 0; i < cs.size(); i++) { u64 n = 0; if (fread (&n, 8, 1, f) != 1) exit (3); std::vector<u64> v (n); if (fread (v.data(), 8, n, f) != n) exit (3); d.push_back (v); }
      fclose (f); have++;
      if (ref.empty()) { ref = d; continue; }
      for (size_t i = 0; i < cs.size(); i++)
        {
          M.eval (mix (mix (i, t), 4242)); M.stat ("calls_compared_between_processes", d[i].size());
          if (d[i] != ref[i]) M.viol ("process:" + cs[i].name(), -1, "%s: output in process %d (different environment, memory contents, earlier use) differs from process 0", cs[i].name().c_str(), t);
        }
    }
  if (have < 3) { fprintf (stderr, "only %d recorded processes\n", have); exit (3); }
  M.sample ("%d processes with different environments compared", have);
}
#endif
int main (int argc, char **argv)
{
  M.init (argc, argv, "C13");
#ifdef MSAN
  for (auto& c : all_cfgs()) if (M.mine (c.index)) msan_cfg (c);
#else
  if (M.mode == "dump") dump();
  else if (M.mode == "cmp") cmp();
  else for (auto& c : all_cfgs()) if (M.mine (c.index)) fill_cfg (c);
#endif
  return M.finish();
}
