// Interposed allocator (not for sanitizer builds): heap log, poisoning, fault injection.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <atomic>
#include <malloc.h>
extern "C" {
void *__libc_malloc (size_t);
void __libc_free (void *);
void *__libc_calloc (size_t, size_t);
void *__libc_realloc (void *, size_t);
void *__libc_memalign (size_t, size_t);
}
namespace alloc_mon {
static std::atomic<long> n_alloc, n_free, live_bytes, live_blocks;
static std::atomic<long> fail_at { -1 };   // countdown: 0 = this allocation fails
static std::atomic<bool> fail_forever { false };
static std::atomic<long> n_failed;
static std::atomic<int> fill { -1 };       // byte pattern for fresh memory, -1 = leave, -2 = pseudo random
static std::atomic<uint32_t> fill_seed { 1 };
struct Blk { char *p; size_t n; };
static Blk last[64]; static std::atomic<unsigned> last_i;
static inline void poison (void *p, size_t n)
{
  int f = fill.load (std::memory_order_relaxed);
  if (f >= 0) memset (p, f, n);
  else if (f == -2) { uint32_t s = fill_seed++ * 2654435761u + 1; for (size_t i = 0; i < n; i++) { s ^= s << 13; s ^= s >> 17; s ^= s << 5; ((char *) p)[i] = s; } }
}
static inline bool should_fail()
{
  long k = fail_at.load (std::memory_order_relaxed);
  if (k < 0) return false;
  if (k == 0) { if (!fail_forever) fail_at = -1; n_failed++; return true; }
  fail_at = k - 1;
  return false;
}
static inline void *note (void *p, size_t n)
{
  if (!p) return p;
  n_alloc++; live_blocks++; live_bytes += malloc_usable_size (p);
  unsigned i = last_i++ % 64; last[i].p = (char *) p; last[i].n = n;
  poison (p, n);
  return p;
}
static inline void gone (void *p) { if (p) { n_free++; live_blocks--; live_bytes -= malloc_usable_size (p); } }
// most recent block that contains p
static inline bool find (const void *p, Blk& b)
{
  unsigned e = last_i;
  for (unsigned k = 1; k <= 64 && k <= e; k++)
    { Blk& x = last[(e - k) % 64]; if ((const char *) p >= x.p && (const char *) p <= x.p + x.n) { b = x; return true; } }
  return false;
}
struct State { long a, f, b, k; };
static inline State state() { return { n_alloc, n_free, live_bytes, live_blocks }; }
}
extern "C" {
void *malloc (size_t n) noexcept { if (alloc_mon::should_fail()) { errno = ENOMEM; return nullptr; } return alloc_mon::note (__libc_malloc (n), n); }
void free (void *p) noexcept { alloc_mon::gone (p); __libc_free (p); }
void *calloc (size_t a, size_t b) noexcept
{
  if (alloc_mon::should_fail()) { errno = ENOMEM; return nullptr; }
  void *p = __libc_calloc (a, b);
  if (p) { alloc_mon::n_alloc++; alloc_mon::live_blocks++; alloc_mon::live_bytes += malloc_usable_size (p); }
  return p;
}
void *realloc (void *o, size_t n) noexcept
{
  if (alloc_mon::should_fail()) { errno = ENOMEM; return nullptr; }
  size_t old = o ? malloc_usable_size (o) : 0;
  void *p = __libc_realloc (o, n);
  if (p) { alloc_mon::n_alloc++; if (o) { alloc_mon::n_free++; alloc_mon::live_blocks--; alloc_mon::live_bytes -= old; } alloc_mon::live_blocks++; alloc_mon::live_bytes += malloc_usable_size (p); }
  return p;
}
void *memalign (size_t a, size_t n) noexcept { if (alloc_mon::should_fail()) { errno = ENOMEM; return nullptr; } return alloc_mon::note (__libc_memalign (a, n), n); }
void *aligned_alloc (size_t a, size_t n) noexcept { return memalign (a, n); }
int posix_memalign (void **r, size_t a, size_t n) noexcept { void *p = memalign (a, n); if (!p) return ENOMEM; *r = p; return 0; }
void *valloc (size_t n) noexcept { return memalign (4096, n); }
}
