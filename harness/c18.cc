// C18: silence, decay, constants, long runs. Oracles: exact zero, decay bounds, comparison with a fresh instance.
#include "mon.hh"
using namespace mon;
static Mon M;
static bool zeros (const float *y, size_t n, size_t *w) { for (size_t i = 0; i < n; i++) if (!(y[i] == 0)) { *w = i; return false; } return true; }
static void check_cfg (const Cfg& c)
{
  Rng g (mix (M.seed, c.index + 181));
  const std::string nm = c.name(); const unsigned ip = c.in_per(), op = c.out_per();
  size_t w;
  const size_t B = 4096;
  // 1. zero in, exact zero out: new and reset instances
  {
    auto r = c.make();
    const size_t L = M.thorough ? 3000000 : 120000;
    vf x (B * ip), y (B * op);
    for (auto& v : x) v = g.below (3) ? 0.0f : -0.0f;
    for (int pass = 0; pass < 3; pass++)
      {
        M.at ("%s|%d|silence, pass %d", nm.c_str(), c.index, pass);
        if (pass)
          { vf a = mixed_signal (g, 600 * ip, 30), b (600 * op); if (pass == 2) a[300 * ip] = NAN; run_all (*r, c, a.data(), 600, b.data(), random_sizes (g, 600, 80)); r->reset(); }
        for (size_t u = 0; u < (pass ? L / 4 : L);)
          {
            size_t n = g.below (3) ? g.below (B) : g.below (40);
            std::fill (y.begin(), y.end(), 7.0f);
            r->process_block (x.data(), n * ip, y.data());
            if (!zeros (y.data(), n * op, &w)) { M.viol ("silence:" + nm, c.index, "%s: output[%zu] = %g after %zu units of silence (%s instance)", nm.c_str(), w, y[w], u, pass ? "reset" : "new"); return; }
            u += n; M.stat ("silent_samples", n * op);
          }
        M.eval (mix (c.index, pass));
      }
  }
  // 2. decay after a signal
  for (int k = 0; k < (M.thorough ? 60 : 10); k++)
    {
      auto r = c.make();
      const size_t U = 200 + g.below (2000), D = c.fir() ? c.fir_mem() + 2 : 0;
      const float amp = k == 0 ? 1 : std::ldexp (1.0f, g.range (-30, 30));
      vf a = k % 3 == 2 ? vf (U * ip, amp) : noise_signal (g, U * ip, amp), b (U * op);
      double peak = 0; for (float v : a) peak = std::max (peak, double (std::fabs (v)));
      M.at ("%s|%d|decay, round %d", nm.c_str(), c.index, k);
      run_all (*r, c, a.data(), U, b.data(), random_sizes (g, U, 1u << g.range (1, 11)));
      const size_t T = 5000; vf z (T * ip, 0.0f), y (T * op);
      run_all (*r, c, z.data(), T, y.data(), random_sizes (g, T, 1u << g.range (1, 10)));
      M.eval (mix (mix (c.index, k), U)); M.stat ("decays", 1);
      if (c.fir())
        { if (!zeros (&y[D * op], (T - D) * op, &w)) { M.viol ("tail:" + nm, c.index, "%s: output %g is not zero %zu samples after the end of the signal (filter length %zu)", nm.c_str(), y[D * op + w], D * op + w, D * op); return; } }
      else
        for (size_t i = 0; i < y.size(); i++)
          {
            const double u = double (i / op), lim = u >= 3000 ? 1e-40 * std::max (1.0, peak) : u >= 1000 ? peak * 1e-12 + 1e-37 : u >= 600 ? peak * 1e-6 : peak * 40;
            if (!(std::fabs (y[i]) <= lim)) { M.viol ("tail:" + nm, c.index, "%s: output %g, %zu samples after the end of a signal with peak %g", nm.c_str(), y[i], i, peak); return; }
          }
    }
  // 3. constants
  for (int k = 0; k < (M.thorough ? 20 : 4); k++)
    {
      auto r = c.make();
      const float v = k == 0 ? 1.0f : (g.sym() + 1.5f) * (g.below (2) ? 1 : -1) * std::ldexp (1.0f, k == 1 ? 0 : g.range (-40, 40));
      vf x (B * ip, v), y (B * op), last;
      const size_t settle = c.fir() ? c.fir_mem() + 2 : 1200, L = M.thorough ? 2000000 : 60000;
      const double lim = c.fir() ? (c.prec == 1 ? 1e-6 : std::pow (10, -6.0 * c.prec / 20) * 4 + 2e-6) : 2e-6;
      M.at ("%s|%d|constant %g", nm.c_str(), c.index, v);
      size_t done = 0;
      while (done < L)
        {
          size_t n = g.below (3) ? g.below (B) : g.below (50);
          r->process_block (x.data(), n * ip, y.data());
          for (size_t i = 0; i < n * op; i++)
            if (done + i / op >= settle)
              {
                if (!(std::fabs (y[i] / v - 1) <= lim)) { M.viol ("constant:" + nm, c.index, "%s: constant %g gives %.9g after %zu units", nm.c_str(), v, y[i], done + i / op); return; }
                const size_t ph = i % op;
                if (last.empty()) last.assign (op, NAN);
                if (std::isnan (last[ph])) last[ph] = y[i];
                if (!(std::fabs (y[i] - last[ph]) <= 3e-6 * std::fabs (v))) { M.viol ("drift:" + nm, c.index, "%s: constant input %g: output drifts from %.9g to %.9g after %zu units", nm.c_str(), v, last[ph], y[i], done + i / op); return; }
                M.stat ("constant_samples", 1);
              }
          done += n;
        }
      M.eval (mix (mix (c.index, k), 3333));
    }
  // 4. long use: compare with a fresh instance that got the recent input only
  {
    const size_t total = M.thorough ? size_t (1) << 27 : size_t (1) << 22; const size_t R = 6000;
    auto r = c.make();
    const u32 blk = 6000;
    vf x ((blk + R) * ip), y ((blk + R) * op), yf;
    size_t done = 0; int next = 16, kinds = 0;
    M.at ("%s|%d|long run", nm.c_str(), c.index);
    vf noise = noise_signal (g, 1000003);
    size_t np = 0;
    while (done < total)
      {
        const bool chk = done >= (size_t (1) << next);
        const size_t n = chk ? R : blk - g.below (7);
        const int kind = (kinds++ / 50) % 4;     // noise, offset noise, sparse, quiet noise
        for (size_t i = 0; i < n * ip; i++)
          { float v = noise[np]; if (++np == noise.size()) np = 0; x[i] = kind == 0 || chk ? v : kind == 1 ? v + 1.5f : kind == 2 ? (i % 50 ? 0.0f : v) : v * 1e-6f; }
        r->process_block (x.data(), n * ip, y.data());
        done += n;
        if (chk)
          {
            next++;
            auto f = c.make(); yf.assign (n * op, 0);
            f->process_block (x.data(), n * ip, yf.data());
            const size_t from = c.fir() ? c.fir_mem() + 2 : 4000;
            vd b ((n - from) * op, c.fir() ? 2.0 : 6.0);
            Cmp k = compare (&y[from * op], &yf[from * op], b.data(), b.size());
            M.statmax ("worst_long_run_difference_ulps", k.worst); M.statmax ("units_before_comparison", done); M.stat ("long_run_comparisons", 1);
            M.eval (mix (mix (c.index, next), 4444));
            if (!k.ok) { M.viol ("long:" + nm, c.index, "%s: after %zu units output is %.9g, a new instance with the same recent input gives %.9g", nm.c_str(), done, k.a, k.r); return; }
          }
      }
    M.stat ("units_processed", done);
    // and the memory of all this is gone
    vf z (4000 * ip, 0.0f), q (4000 * op); r->process_block (z.data(), z.size(), q.data());
    for (size_t i = (c.fir() ? c.fir_mem() + 2 : 3200) * op; i < q.size(); i++) if (!(std::fabs (q[i]) < (c.fir() ? 1e-45 : 1e-37))) { M.viol ("residue:" + nm, c.index, "%s: output %g in silence after %zu units", nm.c_str(), q[i], done); return; }
    M.sample ("%s: %zu units, compared with new instances at every power of two from 65536", nm.c_str(), done);
  }
}
static bool differs (const float *y, const float *ref, size_t n, float t)
{
  int ok = 1;
  for (size_t i = 0; i < n; i++) ok &= std::fabs (y[i] - ref[i]) <= t;
  return !ok;
}
// every sample of a long periodic stream is compared
static void steady (const Cfg& c)
{
  Rng g (mix (M.seed, c.index + 1891));
  const std::string nm = c.name();
  const size_t ip = c.in_per(), op = c.out_per(), B = 6000, L = M.thorough ? 20000000 : 600000;
  vf x (2 * B * ip), y (2 * B * op), ref (2 * B * op);
  { vf n = noise_signal (g, B * ip); std::copy (n.begin(), n.end(), x.begin()); std::copy (n.begin(), n.end(), x.begin() + B * ip); }
  { auto f = c.make(); f->process_block (x.data(), B * ip, ref.data()); f->process_block (x.data(), 2 * B * ip, ref.data()); }
  const float t = tol (c.fir() ? 2.0 : 6.0);
  auto r = c.make();
  M.at ("%s|%d|long periodic stream", nm.c_str(), c.index);
  size_t u = 0; { r->process_block (x.data(), B * ip, y.data()); u = B; }
  int mode = 0;
  while (u < L)
    {
      if (u % 7 == 0) mode = g.below (3);
      const size_t ph = u % B, n = mode == 0 ? B : mode == 1 ? 1 + g.below (B) : 1 + g.below (70);
      r->process_block (&x[ph * ip], n * ip, y.data());
      if (differs (y.data(), &ref[ph * op], n * op, t))
        {
          size_t i = 0; while (std::fabs (y[i] - ref[ph * op + i]) <= t) i++;
          M.viol ("steady:" + nm, c.index, "%s: output %zu of a periodic stream is %.9g, one period of %zu units earlier it was %.9g", nm.c_str(), u * op + i, y[i], B, ref[ph * op + i]); return;
        }
      u += n;
    }
  M.eval (mix (c.index, 6666)); M.stat ("periodic_samples_compared", u * op);
}
// very long use: more samples than 32 bit counters can hold
static void wrap (const Cfg& c, bool exact)
{
  const size_t B = 8192, ip = c.in_per(), op = c.out_per();
  Rng g (mix (M.seed, c.index + 1890 + 1000 * exact));
  const std::string nm = c.name();
  vf x (2 * B * ip), y (2 * B * op), ref (2 * B * op);
  { vf n = noise_signal (g, B * ip); std::copy (n.begin(), n.end(), x.begin()); std::copy (n.begin(), n.end(), x.begin() + B * ip); }
  { auto f = c.make(); f->process_block (x.data(), B * ip, ref.data()); f->process_block (x.data(), 2 * B * ip, ref.data()); }    // steady state of the periodic input
  const double lim = c.fir() ? 2.0 : 6.0;
  auto r = c.make();
  r->process_block (x.data(), B * ip, y.data());
  u64 u = B;
  const int last = c.up() ? (M.thorough ? 33 : 32) : (M.thorough ? 33 : 31);
  for (int k = 29; k <= last; k++)
    {
      const u64 target = u64 (1) << k;
      M.at ("%s|%d|%llu units", nm.c_str(), c.index, (unsigned long long) target);
      while (u + 4 * B < target)
        {
          const u64 ph = u % B, n = B - ph;
          r->process_block (&x[ph * ip], n * ip, y.data());
          if (differs (y.data(), &ref[ph * op], n * op, float (tol (lim)))) { M.viol ("wrap:" + nm, c.index, "%s: output differs from the steady state of a periodic input after %llu units", nm.c_str(), (unsigned long long) u); return; }
          u += n;
        }
      // the crossing, in random blocks (exact: a block ends exactly at the limit), every sample is compared
      while (u < target + 4 * B)
        {
          const u64 ph = u % B; u64 n = 1 + g.below (g.below (3) ? 60 : 3000); if (u < target && u + n > target && exact) n = target - u; if (!exact && u < target && u + n == target) n++;
          r->process_block (&x[ph * ip], n * ip, y.data());
          for (u64 i = 0; i < n * op; i++)
            if (!(std::fabs (double (y[i]) - ref[ph * op + i]) <= tol (lim)))
              { M.viol ("wrap:" + nm, c.index, "%s: output %llu after %llu units is %.9g, expected %.9g", nm.c_str(), (unsigned long long) (u * op + i), (unsigned long long) u, y[i], ref[ph * op + i]); return; }
          M.stat ("samples_compared_at_counter_limits", n * op);
          u += n;
        }
      M.eval (mix (c.index, k + 5555 + 100 * exact)); M.statmax ("units_of_one_stream", u);
    }
}
// very many calls on one instance, every output is compared
static void calls (const Cfg& c)
{
  const size_t B = 4096, ip = c.in_per(), op = c.out_per();
  Rng g (mix (M.seed, c.index + 1990));
  const std::string nm = c.name();
  vf x (2 * B * ip), y (2 * B * op), ref (2 * B * op);
  { vf n = noise_signal (g, B * ip); std::copy (n.begin(), n.end(), x.begin()); std::copy (n.begin(), n.end(), x.begin() + B * ip); }
  { auto f = c.make(); f->process_block (x.data(), B * ip, ref.data()); f->process_block (x.data(), 2 * B * ip, ref.data()); }
  const float lim = tol (c.fir() ? 2.0 : 6.0);
  auto r = c.make();
  r->process_block (x.data(), B * ip, y.data());
  u64 u = B, n_calls = 1;
  const u64 total = M.thorough ? (u64 (1) << 28) + 5000 : (u64 (1) << 24) + 5000;
  M.at ("%s|%d|many calls", nm.c_str(), c.index);
  while (n_calls < total)
    {
      // one period in calls of one unit, sometimes of a few units
      size_t ph = 0; const bool few = g.below (16) == 0;
      while (ph < B)
        {
          const size_t n = few ? std::min<size_t> (1 + g.below (5), B - ph) : 1;
          r->process_block (&x[ph * ip], n * ip, &y[ph * op]); n_calls++; ph += n;
        }
      if (differs (y.data(), ref.data(), B * op, lim))
        { M.viol ("calls:" + nm, c.index, "%s: output differs from the steady state of a periodic input after about %llu calls", nm.c_str(), (unsigned long long) n_calls); return; }
      u += B;
      if ((n_calls & 0xfffff) < B) M.at ("%s|%d|%llu calls", nm.c_str(), c.index, (unsigned long long) n_calls);
    }
  M.eval (mix (c.index, 7777)); M.statmax ("calls_of_one_instance", n_calls);
}
int main (int argc, char **argv)
{
  M.init (argc, argv, "C18");
  if (M.mode == "calls") { for (auto& c : all_cfgs()) if (M.mine (c.index)) calls (c); return M.finish(); }
  if (M.mode == "wrap")
    {
      int k = 0;
      for (auto& c : all_cfgs())
        if (c.ratio == 2 && c.prec == (c.fir() ? 1 : 8))
          {
            for (int exact = 0; exact < 2; exact++)
              {
                if (M.only >= 0 ? M.only == c.index : k % M.nshard == M.shard) wrap (c, exact);
                k++;
              }
          }
      return M.finish();
    }
  for (auto& c : all_cfgs()) if (M.mine (c.index)) { check_cfg (c); steady (c); }
  return M.finish();
}
