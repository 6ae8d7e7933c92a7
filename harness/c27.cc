// C27: floating point environment. Streams, queries and construction under flush-to-zero, denormals-are-zero, all rounding
// modes and with trapping exceptions are compared with the default environment; exception flags raised are observed.
#include "mon.hh"
#include <cfenv>
#include <xmmintrin.h>
using namespace mon;
static Mon M;

struct Env { const char *name; unsigned csr; double K; double abs; };
// bits: FTZ 0x8000, DAZ 0x0040, rounding 0x6000, exception masks 0x1f80 (invalid 0x80, denormal 0x100, div by zero 0x200, overflow 0x400)
static const Env envs[] = {
  { "flush-to-zero", 0x9f80, 0, 1e-34 }, { "flush-to-zero and denormals-are-zero", 0x9fc0, 0, 1e-34 }, { "denormals-are-zero", 0x1fc0, 0, 1e-34 },
  { "rounding down", 0x1f80 | 0x2000, 600, 1e-37 }, { "rounding up", 0x1f80 | 0x4000, 600, 1e-37 }, { "rounding towards zero", 0x1f80 | 0x6000, 600, 1e-37 },
  { "rounding up, flush-to-zero and denormals-are-zero", 0x9fc0 | 0x4000, 600, 1e-34 },
  { "trapping invalid operations, divisions by zero and overflows", 0x1f80 & ~0x680u, 0, 0 },
};
struct Scope {
  unsigned old; unsigned want;
  Scope (unsigned csr) : old (_mm_getcsr()), want (csr) { _mm_setcsr (csr); static const int rm[] = { FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO }; (void) rm; }
  unsigned flags() const { return _mm_getcsr() & 0x3f; }
  bool intact() const { return (_mm_getcsr() & ~0x3fu) == want; }
  ~Scope() { _mm_setcsr (old); }
};
static void check_cfg (const Cfg& c)
{
  Rng g (mix (M.seed, c.index + 2701));
  for (int k = 0; k < (M.thorough ? 120 : 12); k++)
    {
      // signal, then silence (recursive filters decay into the denormal range); every kind of level that cannot overflow
      const size_t U = 600 + g.below (3000), tail = k % 2 ? 4000 : 200;
      const int lev = k % 3 == 0 ? 0 : k % 3 == 1 ? g.range (-140, -100) : g.range (-60, 100);
      vf x = k % 3 ? mixed_signal (g, (U + tail) * c.in_per(), 40) : noise_signal (g, (U + tail) * c.in_per(), 1 + g.uni());
      const float s = std::ldexp (1.0f, lev / 2);
      for (size_t i = 0; i < x.size(); i++) x[i] = i < U * c.in_per() ? x[i] * s * std::ldexp (1.0f, lev - lev / 2) : 0;
      const size_t total = U + tail, no = total * c.out_per();
      std::vector<u32> sch = random_sizes (g, total, 1u << g.range (2, 12));
      M.at ("%s|%d|default environment", c.name().c_str(), c.index);
      vf ref (no), y (no); double dref; u32 oref;
      { auto r = c.make(); run_all (*r, c, x.data(), total, ref.data(), sch); dref = r->delay(); oref = r->order(); }
      vd b = bound (c, x.data(), total);
      double peak = 0; for (float v : x) peak = std::max (peak, std::fabs (double (v)));
      for (auto& e : envs)
        {
          // compilers compute on unused vector lanes: repeated products of samples must not overflow where exceptions are observed
          const bool moderate = peak <= 4;
          if (!(e.csr & 0x80) && !moderate) continue;
          const bool inside = g.below (2);          // construct in the environment or before
          M.at ("%s|%d|%s, level 2^%d", c.name().c_str(), c.index, e.name, lev);
          std::fill (y.begin(), y.end(), 7e7f);
          double d; u32 o; unsigned fl; bool intact;
          {
            std::unique_ptr<Resampler2> r;
            if (!inside) r = c.make();
            Scope sc (e.csr);
            if (inside) r = c.make();
            run_all (*r, c, x.data(), total, y.data(), sch);
            d = r->delay(); o = r->order(); fl = sc.flags(); intact = sc.intact();
          }
          M.eval (mix (mix (c.index, k), hash_str (e.name) + inside)); M.stat ("samples_compared", no);
          const std::string key = std::string (e.name) + ":" + c.name();
          if (!intact) M.viol ("changed:" + key, c.index, "%s: the environment (%s) is not the same after the calls", c.name().c_str(), e.name);
          // (compilers may raise flags speculatively, so only invalid operation, division by zero and overflow count, in code built by gcc)
#ifndef __clang__
          if (moderate && (fl & 0x0d)) M.viol ("flags:" + key, c.index, "%s (%s): finite input of level 2^%d raises floating point exception%s%s%s", c.name().c_str(), e.name, lev, fl & 1 ? " INVALID" : "", fl & 4 ? " DIVBYZERO" : "", fl & 8 ? " OVERFLOW" : "");
          M.stat ("exception_flag_observations", moderate);
#endif
          if (o != oref || !(std::fabs (d - dref) <= 1e-10 * (1 + dref))) M.viol ("query:" + key, c.index, "%s (%s): delay %.17g order %u, in the default environment %.17g, %u", c.name().c_str(), e.name, d, o, dref, oref);
          double dc = 0;   // directed rounding: rounding errors of recursive filters have one sign, allow for the peak level
          if (e.K && !c.fir()) dc = 300 * EPS * peak;
          for (size_t i = 0; i < no; i++)
            {
              // samples smaller than 1e-34 are what flushing may change
              double t = e.K * EPS * b[i] + e.abs + dc, df = std::fabs (double (y[i]) - ref[i]);
              if (e.K) M.statmax (c.fir() ? "worst_rounding_fir_ulps" : "worst_rounding_iir_ulps", b[i] + peak > 1e-30 ? df / (EPS * (c.fir() ? b[i] + 1e-30 : peak)) : 0);
              if (!(df <= t)) { M.viol ("output:" + key, c.index, "%s (%s, level 2^%d): output[%zu] = %.9g, in the default environment %.9g", c.name().c_str(), e.name, lev, i, y[i], ref[i]); return; }
            }
        }
      // switching the environment in the middle of a stream, and back
      {
        M.at ("%s|%d|environment changes between blocks", c.name().c_str(), c.index);
        auto r = c.make(); size_t u = 0, q = 0;
        while (u < total)
          {
            size_t n = std::min<size_t> (sch[q++ % sch.size()], total - u);
            Scope sc (envs[g.below (3)].csr);
            r->process_block (&x[u * c.in_per()], n * c.in_per(), &y[u * c.out_per()]); u += n;
          }
        M.eval (mix (mix (c.index, k), 99));
        for (size_t i = 0; i < no; i++) if (!(std::fabs (double (y[i]) - ref[i]) <= 1e-34)) { M.viol ("switch:" + c.name(), c.index, "%s: environment changes between blocks (flushing): output[%zu] = %.9g instead of %.9g", c.name().c_str(), i, y[i], ref[i]); return; }
      }
    }
  if (c.index % 11 == 0) M.sample ("%s: flushing, 3 directed rounding modes, trapping exceptions, changes between blocks", c.name().c_str());
}
// the queries without an instance and ratio 1
static void others()
{
  Rng g (mix (M.seed, 2799));
  for (auto& e : envs)
    for (int k = 0; k < 400; k++)
      {
        vf x (1 + g.below (50)), y (x.size()); for (auto& v : x) v = fbits (u32 (g.next())); 
        for (auto& v : x) if (std::isnan (v) || std::isinf (v)) v = 1e-40f;
        Resampler2::Mode m = g.below (2) ? Resampler2::UP : Resampler2::DOWN;
        Resampler2::Precision p, pd = Resampler2::find_precision_for_bits (k % 40);
        M.at ("ratio 1|100|%s", e.name);
        double d; bool tst;
        { Scope sc (e.csr); Resampler2 r (m, 1, Resampler2::PREC_96DB, k % 2, k % 3 ? Resampler2::FILTER_FIR : Resampler2::FILTER_IIR); r.process_block (x.data(), x.size(), y.data()); d = r.delay(); p = Resampler2::find_precision_for_bits (k % 40); tst = k % 100 || (e.csr & 0x6000) ? true : Resampler2::test_filter_impl (false); }
        M.eval (mix (hash_str (e.name), k + 100000));
        for (size_t i = 0; i < x.size(); i++) if (bits (x[i]) != bits (y[i]) && !(std::fabs (double (x[i]) - y[i]) <= e.abs)) { M.viol (std::string ("ratio1:") + e.name, 100, "ratio 1 (%s): output %.9g for input %.9g", e.name, y[i], x[i]); return; }
        if (d != 0 || p != pd || !tst) { M.viol (std::string ("ratio1q:") + e.name, 100, "%s: delay %g (ratio 1), precision %d instead of %d, self test %d", e.name, d, p, pd, tst); return; }
      }
}
int main (int argc, char **argv)
{
  M.init (argc, argv, "C27");
  for (auto& c : all_cfgs()) if (M.mine (c.index)) check_cfg (c);
  if (M.mine (100)) others();
  return M.finish();
}
