// C14: AlignedArray. Oracles: life cycle tracker of every element, allocator log (cache lines), content comparison.
#include "mon.hh"
#if !MON_SLOW
#include "alloc.hh"
#endif
#include <map>
#include <set>
using namespace mon;
using PandaResampler::AlignedArray;
static Mon M;

// every live object by address; errors are counted
static std::set<const void *> live; static long constructed, destroyed, errors; static std::vector<const void *> dtor_order; static bool record;
template<int PADDING> struct Tracked {
  long value; char pad[PADDING]; Tracked *self;
  Tracked() : value (4711), self (this) { constructed++; if (!live.insert (this).second) errors++; memset (pad, 7, PADDING); }
  explicit Tracked (long v) : Tracked() { value = v; }
  Tracked (const Tracked& o) : Tracked() { if (!live.count (&o)) errors++; value = o.value; }
  Tracked& operator= (const Tracked& o) { if (!live.count (&o) || !live.count (this) || self != this) errors++; value = o.value; return *this; }
  ~Tracked() { destroyed++; if (self != this || !live.erase (this)) errors++; self = nullptr; if (record) dtor_order.push_back (this); }
  bool operator== (const Tracked& o) const { return value == o.value; }
};
struct Pod { char a; double b; int c[3]; bool operator== (const Pod& o) const { return a == o.a && b == o.b && c[0] == o.c[0] && c[1] == o.c[1] && c[2] == o.c[2]; } };
struct Three { char c[3]; bool operator== (const Three& o) const { return !memcmp (c, o.c, 3); } };
struct alignas (16) A16 { float f[4]; bool operator== (const A16& o) const { return !memcmp (f, o.f, 16); } };
struct alignas (64) A64 { float f[16]; bool operator== (const A64& o) const { return !memcmp (f, o.f, 64); } };

template<class T> T val (Rng& g);
template<> float val<float> (Rng& g) { return g.sym(); }
template<> double val<double> (Rng& g) { return g.uni(); }
template<> char val<char> (Rng& g) { return char (g.next()); }
template<> u32 val<u32> (Rng& g) { return u32 (g.next()); }
template<> Pod val<Pod> (Rng& g) { return { char (g.next()), g.uni(), { 1, int (g.below (99)), 3 } }; }
template<> Three val<Three> (Rng& g) { return { { char (g.next()), 2, 3 } }; }
template<> A16 val<A16> (Rng& g) { return { { g.sym(), 1, 2, 3 } }; }
template<> A64 val<A64> (Rng& g) { A64 a; for (auto& v : a.f) v = g.sym(); return a; }
template<> std::string val<std::string> (Rng& g) { return std::string (g.below (60), 'x') + std::to_string (g.next()); }
template<> Tracked<5> val<Tracked<5>> (Rng& g) { return Tracked<5> (long (g.below (100000))); }
template<> Tracked<100> val<Tracked<100>> (Rng& g) { return Tracked<100> (long (g.below (100000))); }
template<> std::vector<int> val<std::vector<int>> (Rng& g) { return std::vector<int> (g.below (9), int (g.next())); }

static int tests;
template<class T> static bool layout (AlignedArray<T>& a, size_t n, const char *tn, const char *what)
{
  const AlignedArray<T>& ca = a;
  const std::string k = std::string (tn) + ":" + what;
  M.stat ("layout_checks", 1);
  if (a.size() != n || ca.size() != n) { M.viol ("size:" + k, -1, "AlignedArray<%s> (%s) of %zu elements: size() = %zu", tn, what, n, a.size()); return false; }
  if (size_t (a.end() - a.begin()) != n) { M.viol ("range:" + k, -1, "AlignedArray<%s> (%s): end() - begin() = %td, size %zu", tn, what, a.end() - a.begin(), n); return false; }
  if (n)
    {
      uintptr_t p = (uintptr_t) a.begin(), e = p + n * sizeof (T);
      if (p % 64) { M.viol ("align:" + k, -1, "AlignedArray<%s> (%s) of %zu elements starts at address %% 64 = %d", tn, what, n, int (p % 64)); return false; }
      if (&a[0] != a.begin() || &ca[0] != a.begin() || &a[n - 1] != a.begin() + (n - 1) || &ca[n - 1] != a.end() - 1) { M.viol ("index:" + k, -1, "AlignedArray<%s> (%s): operator[] does not match begin()", tn, what); return false; }
#if !MON_SLOW
      alloc_mon::Blk b;
      if (!alloc_mon::find ((void *) p, b)) M.stat ("block_not_found", 1);
      else
        {
          uintptr_t lo = (uintptr_t) b.p, hi = lo + b.n, le = (e + 63) / 64 * 64;
          if (p < lo || e > hi) { M.viol ("inside:" + k, -1, "AlignedArray<%s> (%s) of %zu elements: data [%+td, %+td) is not inside the allocated block of %zu bytes", tn, what, n, ptrdiff_t (p - lo), ptrdiff_t (e - lo), b.n); return false; }
          if (le > hi) { M.viol ("cacheline:" + k, -1, "AlignedArray<%s> (%s) of %zu elements: the last cache line ends %td bytes behind the allocated block", tn, what, n, ptrdiff_t (le - hi)); return false; }
          M.stat ("cache_line_checks", 1);
        }
#endif
    }
  return true;
}
template<class T> static void one (Rng& g, size_t n, const char *tn)
{
  M.at ("AlignedArray|%d|%s, %zu elements", tests, tn, n);
  M.eval (mix (hash_str (tn), n), n > 0);
  std::unique_ptr<char[]> shift (new char[1 + g.below (200)]);   // vary the address of the next block
  long e0 = errors, c0 = constructed, d0 = destroyed; size_t l0 = live.size();
  const bool tracked = tn[0] == 'T' && tn[1] == 'r';
  {
#if !MON_SLOW
    alloc_mon::fill = g.below (2) ? -2 : 0xa5;
#endif
    AlignedArray<T> a (n);
#if !MON_SLOW
    alloc_mon::fill = -1;
#endif
    if (!layout (a, n, tn, "new")) return;
    const T ref = T();
    for (size_t i = 0; i < n; i++) if (!(a[i] == ref)) { M.viol (std::string ("init:") + tn, -1, "AlignedArray<%s> of %zu: element %zu is not value-initialised", tn, n, i); return; }
    std::vector<T> v; for (size_t i = 0; i < n; i++) v.push_back (val<T> (g));
    AlignedArray<T> b (v);
    if (!layout (b, n, tn, "from vector")) return;
    auto eq = [&] (AlignedArray<T>& x, const std::vector<T>& w, const char *what)
      {
        if (x.size() != w.size()) { M.viol (std::string ("copysize:") + tn, -1, "AlignedArray<%s>: %s has %zu elements instead of %zu", tn, what, x.size(), w.size()); return false; }
        for (size_t i = 0; i < w.size(); i++) if (!(x[i] == w[i])) { M.viol (std::string ("content:") + tn, -1, "AlignedArray<%s> of %zu: %s: element %zu is wrong", tn, w.size(), what, i); return false; }
        M.stat ("elements_compared", w.size());
        return true;
      };
    if (!eq (b, v, "construction from a vector")) return;
    if (n) for (size_t i = 0; i < n; i++) if (!(a[i] == ref)) { M.viol (std::string ("alias:") + tn, -1, "AlignedArray<%s>: writing one array changes another one", tn); return; }
    AlignedArray<T> c (b);
    if (!layout (c, n, tn, "copy") || !eq (c, v, "copy")) return;
    if (n && c.begin() == b.begin()) { M.viol (std::string ("shared:") + tn, -1, "AlignedArray<%s>: a copy shares the memory of the original", tn); return; }
    // change the copy, then the original
    std::vector<T> w = v;
    for (size_t i = 0; i < n; i += 1 + g.below (5)) { w[i] = val<T> (g); c[i] = w[i]; }
    if (!eq (b, v, "original after a change of the copy") || !eq (c, w, "changed copy")) return;
    // assignment from smaller, larger, equal size, itself
    for (int k = 0; k < 4; k++)
      {
        size_t m = k == 0 ? n : k == 1 ? n / 2 : k == 2 ? n + 1 + g.below (40) : 0;
        std::vector<T> q; for (size_t i = 0; i < m; i++) q.push_back (val<T> (g));
        AlignedArray<T> d (q), t (v);
        AlignedArray<T>& res = (t = d);
        if (&res != &t) { M.viol (std::string ("assign-ref:") + tn, -1, "AlignedArray<%s>: operator= does not return *this", tn); return; }
        if (!eq (t, q, "assignment") || !eq (d, q, "source of an assignment") || !layout (t, m, tn, "assigned")) return;
        if (m) { t[0] = val<T> (g); if (!eq (d, q, "source after a change of the target")) return; }
        AlignedArray<T>& self = t; std::vector<T> keep (t.begin(), t.end());
        t = self;
        if (!eq (t, keep, "self assignment")) return;
        d = t; t = AlignedArray<T> (v);
        if (!eq (t, v, "assignment of a temporary") || !eq (d, keep, "chain of assignments")) return;
        AlignedArray<T> mv (std::move (d));
        if (!eq (mv, keep, "move construction")) return;
      }
    // containers of arrays, swap
    std::vector<AlignedArray<T>> va; for (int i = 0; i < 5; i++) va.push_back (i % 2 ? b : c);
    va.erase (va.begin() + 1);
    if (!eq (va[0], w, "array in a vector") || !eq (va[1], w, "array in a vector") || !eq (va[2], v, "array in a vector")) return;
    std::swap (va[0], va[2]);
    if (!eq (va[0], v, "swapped array") || !eq (va[2], w, "swapped array")) return;
    const AlignedArray<T> cc (b);
    for (size_t i = 0; i < n; i++) if (!(cc[i] == v[i])) { M.viol (std::string ("const:") + tn, -1, "AlignedArray<%s>: const copy differs", tn); return; }
    if (tracked)
      {
        std::unique_ptr<AlignedArray<T>> z (new AlignedArray<T> (b));
        std::vector<const void *> want; for (size_t i = n; i--;) want.push_back (&(*z)[i]);
        dtor_order.clear(); record = true; z.reset(); record = false;
        if (dtor_order != want) { M.viol (std::string ("order:") + tn, -1, "AlignedArray<%s> of %zu: elements are not destroyed exactly once in reverse order (%zu destructor calls)", tn, n, dtor_order.size()); return; }
      }
  }
  M.stat ("element_constructions", constructed - c0);
  if (tracked && errors != e0) M.viol (std::string ("life:") + tn, -1, "AlignedArray<%s> of %zu: %ld accesses to elements that are not alive / constructed twice", tn, n, errors - e0);
  if (tracked && (constructed - c0 != destroyed - d0 || live.size() != l0)) M.viol (std::string ("balance:") + tn, -1, "AlignedArray<%s> of %zu: %ld constructions, %ld destructions", tn, n, constructed - c0, destroyed - d0);
}
template<class T> static void type (const char *tn, int idx)
{
  if (!M.mine (idx)) return;
  tests = idx;
  Rng g (mix (M.seed, idx + 141));
  {
    std::set<size_t> ns;
    for (size_t n = 0; n < 140; n++) ns.insert (n);
    for (size_t p = 128; p <= (sizeof (T) > 32 ? 512 : 4096); p *= 2) for (int d = -2; d <= 2; d++) ns.insert (p + d);
    for (int k = 0; k < (M.thorough ? 300 : 20); k++) ns.insert (g.below (M.thorough ? 20000 : 3000));
    for (size_t n : ns) one<T> (g, n, tn);
    for (int k = 0; k < (M.thorough ? 2000 : 100); k++) one<T> (g, g.below (60), tn);
  }
#if !MON_SLOW
  // heap conservation: nothing but arrays is created and destroyed
  for (size_t n : { 0, 1, 7, 64, 300 })
    {
      std::vector<T> v; for (size_t i = 0; i < n; i++) v.push_back (val<T> (g));
      alloc_mon::State s0 = alloc_mon::state();
      for (int k = 0; k < 50; k++)
        {
          AlignedArray<T> a (n), b (v), c (b);
          a = b; b = b; c = a; AlignedArray<T> d (std::move (c)); d = AlignedArray<T> (size_t (3)); b = d;
        }
      alloc_mon::State s1 = alloc_mon::state();
      M.stat ("heap_blocks_observed", s1.a - s0.a);
      if (s1.k != s0.k || s1.b != s0.b) M.viol (std::string ("leak:") + tn, -1, "AlignedArray<%s> of %zu: %ld bytes in %ld blocks are not freed after 50 rounds", tn, n, s1.b - s0.b, s1.k - s0.k);
    }
#endif
  M.sample ("AlignedArray<%s>: sizes 0..139, around powers of two, random", tn);
}
// every size up to a few thousand, and sizes around whole pages
template<class T> static void every (const char *tn, size_t limit)
{
  Rng g (mix (M.seed, hash_str (tn) + 142));
  const T ref = T();
  std::vector<size_t> ns; for (size_t n = 0; n <= limit; n++) ns.push_back (n);
  for (size_t p = 4096; p <= 1 << 20; p *= 2) for (int d = -1; d <= 1; d++) { ns.push_back (p / sizeof (T) + d); ns.push_back (p + d); }
  for (size_t i = ns.size(); i > 1; i--) std::swap (ns[i - 1], ns[g.below (i)]);
  std::vector<T> pool; for (size_t i = 0; i < (1 << 20) + 64; i++) pool.push_back (val<T> (g));
  AlignedArray<T> keep (size_t (5));
  for (size_t n : ns)
    {
      M.at ("AlignedArray|13|every size: %s, %zu elements", tn, n);
      const T *src = pool.data() + g.below (60); const std::vector<T> v (src, src + n);
      AlignedArray<T> a (n);
      if (!layout (a, n, tn, "new")) return;
      for (size_t i = 0; i < n; i++) if (!(a[i] == ref)) { M.viol (std::string ("init:") + tn, -1, "AlignedArray<%s> of %zu: element %zu is not value-initialised", tn, n, i); return; }
      AlignedArray<T> b (v), c (b); a = c; keep = a;
      const AlignedArray<T> *all[] = { &b, &c, &a, &keep }; const char *names[] = { "made of a vector", "copy", "assigned", "assigned over an array of another size" };
      if (!layout (b, n, tn, names[0]) || !layout (c, n, tn, names[1]) || !layout (a, n, tn, names[2]) || !layout (keep, n, tn, names[3])) return;
      for (int k = 0; k < 4; k++)
        for (size_t i = 0; i < n; i++) if (!((*all[k])[i] == v[i])) { M.viol (std::string ("content:") + tn, -1, "AlignedArray<%s> of %zu, %s: element %zu is wrong", tn, n, names[k], i); return; }
      M.eval (mix (hash_str (tn) + 5, n), n > 0); M.stat ("elements_compared", 5 * n);
    }
}
// elements that throw while the array is built: what was constructed is destroyed exactly once, last first, nothing else changes
static long throw_in = -1;      // throw in this many constructions / assignments
static std::vector<const void *> born;
struct Boom { };
struct Thrower {
  long value; Thrower *self;
  static void step() { if (throw_in >= 0 && throw_in-- == 0) throw Boom(); }
  Thrower() : value (4711), self (this) { step(); constructed++; if (!live.insert (this).second) errors++; if (record) born.push_back (this); }
  explicit Thrower (long v) : Thrower() { value = v; }
  Thrower (const Thrower& o) : Thrower() { value = o.value; }
  Thrower& operator= (const Thrower& o) { if (!live.count (&o) || !live.count (this) || self != this) errors++; step(); value = o.value; return *this; }
  ~Thrower() { destroyed++; if (self != this || !live.erase (this)) errors++; self = nullptr; if (record) dtor_order.push_back (this); }
};
static void throwing (Rng& g)
{
  const char *ops[] = { "construction", "construction from a vector", "copy construction", "assignment" };
  for (int round = 0; round < (M.thorough ? 20000 : 1500); round++)
    {
      const size_t n = 1 + g.below (round % 10 ? 20 : 200);
      const int op = round % 4;
      M.at ("AlignedArray|12|throwing elements, %s of %zu elements", ops[op], n);
      std::vector<Thrower> v; v.reserve (n); for (size_t i = 0; i < n; i++) v.emplace_back (long (g.below (99999)));
      std::vector<Thrower> w; size_t m = g.below (30); w.reserve (m); for (size_t i = 0; i < m; i++) w.emplace_back (long (g.below (99999)));
      AlignedArray<Thrower> src (v), dst (w);
      const long c0 = constructed, d0 = destroyed, e0 = errors; const size_t l0 = live.size();
      born.clear(); dtor_order.clear(); born.reserve (2 * n + 10); dtor_order.reserve (2 * n + 10);
#if !MON_SLOW
      alloc_mon::State s0 = alloc_mon::state();
#endif
      bool thrown = false; const long at = g.below (n * (op ? 2 : 1));
      record = true; throw_in = at;
      try {
        if (op == 0) AlignedArray<Thrower> x (n);
        else if (op == 1) AlignedArray<Thrower> x (v);
        else if (op == 2) AlignedArray<Thrower> x (src);
        else dst = src;
      } catch (Boom&) { thrown = true; }
      throw_in = -1; record = false;
#if !MON_SLOW
      alloc_mon::State s1 = alloc_mon::state();
#endif
      M.eval (mix (mix (n, op), at + 777)); M.stat ("throwing_elements", thrown);
      const std::string k = std::string ("throw:") + ops[op];
#if !MON_SLOW
      if (thrown && s1.k != s0.k) M.viol (k + ":leak", 12, "AlignedArray: %s of %zu elements, an element throws: %ld blocks are not freed", ops[op], n, s1.k - s0.k);
#endif
      // an implementation may construct in another way than default construction and assignment, so that nothing is thrown
      if (errors != e0) M.viol (k + ":life", 12, "AlignedArray: %s of %zu elements, operation %ld throws: %ld accesses to elements that are not alive", ops[op], n, at, errors - e0);
      if (thrown)
        {
          if (live.size() != l0 || constructed - c0 != destroyed - d0) M.viol (k + ":balance", 12, "AlignedArray: %s of %zu elements, operation %ld throws: %ld constructed, %ld destroyed", ops[op], n, at, constructed - c0, destroyed - d0);
          else { std::reverse (born.begin(), born.end()); if (born != dtor_order) M.viol (k + ":order", 12, "AlignedArray: %s of %zu elements, operation %ld throws: not destroyed in reverse order", ops[op], n, at); }
          if (dst.size() != m) M.viol (k + ":target", 12, "AlignedArray: failed %s changed the size of the target", ops[op]);
          else for (size_t i = 0; i < m; i++) if (dst[i].value != w[i].value) { M.viol (k + ":target", 12, "AlignedArray: failed %s changed the target", ops[op]); break; }
          for (size_t i = 0; i < n; i++) if (src.size() != n || src[i].value != v[i].value) { M.viol (k + ":source", 12, "AlignedArray: failed %s changed the source", ops[op]); break; }
        }
    }
  M.sample ("throwing elements: construction, copies and assignments that fail at a random element");
}
// arrays with more elements, or more bytes, than 32 bits can count
struct MB { u64 first; char fill[(1 << 20) - 16]; u64 last; };
static size_t mem_available_gb()
{
  FILE *f = fopen ("/proc/meminfo", "r"); if (!f) return 0;
  char line[200]; unsigned long long kb = 0; while (fgets (line, sizeof (line), f)) if (sscanf (line, "MemAvailable: %llu", &kb) == 1) break;
  fclose (f); return kb >> 20;
}
static bool same_bytes (const char *what, const char *a, const char *b, size_t n)
{
  M.at ("AlignedArray|20|huge, comparing %s", what); M.eval (mix (n, hash_str (what))); M.stat ("huge_arrays", 1); M.stat ("huge_elements", n);
  if (!memcmp (a, b, n)) return true;
  M.viol (std::string ("huge:") + what, 20, "AlignedArray<char> with %zu elements: %s does not have the same elements", n, what); return false;
}
static void huge (Rng& g)
{
  if (mem_available_gb() < 20) { M.sample ("not enough memory for arrays beyond 2^32 bytes: %zu GB available", mem_available_gb()); return; }
  const size_t n = (size_t (1) << 32) + 1 + g.below (100000);
  {
    M.at ("AlignedArray|20|huge, %zu elements of one byte", n);
    std::vector<char> v (n); for (size_t i = 0; i + 8 < n; i += 509) { u64 r = mix (i, 5); memcpy (&v[i], &r, 8); } for (size_t i = n - 3000; i < n; i++) v[i] = char (i * 7 + 1);
    AlignedArray<char> a (v);
    if (a.size() != n || size_t (a.end() - a.begin()) != n) { M.viol ("huge:size", 20, "AlignedArray<char> made of %zu elements has size() %zu and end() - begin() %zu", n, a.size(), size_t (a.end() - a.begin())); return; }
    if (!same_bytes ("an array made of a vector", a.begin(), v.data(), n)) return;
    for (int i = 0; i < 1000; i++) { const size_t p = i < 500 ? n - 1 - g.below (1000000) : (size_t (g.next()) % n); if (&a[p] != a.begin() + p || a[p] != v[p]) { M.viol ("huge:index", 20, "AlignedArray<char> with %zu elements: operator[] (%zu) is not element %zu", n, p, p); return; } }
    { std::vector<char>().swap (v); }
    AlignedArray<char> c (a);
    if (c.size() != n) { M.viol ("huge:copy", 20, "the copy of an AlignedArray<char> with %zu elements has %zu", n, c.size()); return; }
    if (!same_bytes ("the copy of an array", c.begin(), a.begin(), n)) return;
    c[n - 1]++; if (c[n - 1] == a[n - 1]) { M.viol ("huge:shared", 20, "a copy shares its elements"); return; }
    AlignedArray<char> d (3); d = a;
    if (d.size() != n) { M.viol ("huge:assign", 20, "assigning an AlignedArray<char> with %zu elements gives %zu", n, d.size()); return; }
    if (!same_bytes ("an assigned array", d.begin(), a.begin(), n)) return;
  }
  {
    const size_t m = 4096 + 200;        // 1 MB each: more than 2^32 bytes
    M.at ("AlignedArray|20|huge, %zu elements of one megabyte", m);
    AlignedArray<MB> a (m);
    for (size_t i = 0; i < m; i++) if (a[i].first || a[i].last || a[i].fill[777]) { M.viol ("huge:init", 20, "AlignedArray with %zu elements of one megabyte: element %zu is not value initialised", m, i); return; }
    for (size_t i = 0; i < m; i++) { a[i].first = i; a[i].last = ~i; }
    const MB *p = a.begin();
    for (size_t i = 0; i < m; i++) if (&a[i] != p + i || a[i].first != i || a[i].last != ~i) { M.viol ("huge:overlap", 20, "AlignedArray with %zu elements of one megabyte: element %zu overlaps another", m, i); return; }
    AlignedArray<MB> b (a); M.eval (mix (m, 99)); M.stat ("huge_arrays", 1);
    for (size_t i = 0; i < m; i++) if (b.size() != m || b[i].first != i || b[i].last != ~i) { M.viol ("huge:copy", 20, "AlignedArray with %zu elements of one megabyte: element %zu of the copy differs", m, i); return; }
  }
  M.sample ("arrays of %zu elements of one byte and of 4296 elements of one megabyte", n);
}
int main (int argc, char **argv)
{
  M.init (argc, argv, "C14");
  if (M.mode == "huge") { Rng g (mix (M.seed, 154)); huge (g); return M.finish(); }
  if (M.mine (12)) { Rng g (mix (M.seed, 153)); throwing (g); }
#if !MON_SLOW
  if (M.mine (13)) { alloc_mon::fill = 0xa5; every<float> ("float", M.thorough ? 20000 : 4200); every<char> ("char", 4200); every<double> ("double", M.thorough ? 9000 : 2100); every<A64> ("A64", 1100); alloc_mon::fill = -1; }
#endif
  type<float> ("float", 0); type<double> ("double", 1); type<char> ("char", 2); type<u32> ("uint", 3); type<Pod> ("Pod", 4); type<Three> ("Three", 5);
  type<A16> ("A16", 6); type<A64> ("A64", 7); type<std::string> ("string", 8); type<Tracked<5>> ("Tracked5", 9); type<Tracked<100>> ("Tracked100", 10); type<std::vector<int>> ("vector<int>", 11);
  return M.finish();
}
