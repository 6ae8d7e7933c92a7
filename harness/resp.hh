// Measured responses (from impulses) of a resampler.
#pragma once
#include "mon.hh"
namespace mon {
// response on the high-rate time axis.
// UP: h[k], k = output index for an impulse at input 0.  DOWN: h at t = ratio * m - i + (ratio - 1) for an impulse at input i, output m.
struct Response { std::vector<double> h; double t0; };   // sample k is at high-rate time k + t0
inline Response measure (const Cfg& c, size_t units, Rng *g = nullptr, float amp = 1)
{
  Response r;
  if (c.up())
    {
      auto x = c.make();
      vf in (units, 0.0f), out (units * c.ratio); in[0] = amp;
      run_all (*x, c, in.data(), units, out.data(), g ? random_sizes (*g, units, 200) : std::vector<u32>());
      r.h.assign (out.begin(), out.end()); r.t0 = 0;
      for (auto& v : r.h) v /= amp;
    }
  else
    {
      r.h.assign (units * c.ratio, 0); r.t0 = -double (c.ratio - 1);
      for (unsigned p = 0; p < c.ratio; p++)
        {
          auto x = c.make();
          vf in (units * c.ratio, 0.0f), out (units); in[p] = amp;
          run_all (*x, c, in.data(), units, out.data(), g ? random_sizes (*g, units, 200) : std::vector<u32>());
          for (size_t m = 0; m < units; m++) r.h[c.ratio * m + (c.ratio - 1 - p)] = double (out[m]) / amp;
        }
    }
  return r;
}
// gain 1 in the pass band; f in units of the low rate (44.1 kHz -> 1)
inline std::complex<double> H (const Cfg& c, const Response& r, double f)
{
  const double w = 2 * M_PI * f / c.ratio;
  std::complex<double> s = 0, z = std::polar (1.0, -w), p = std::polar (1.0, -w * r.t0);
  size_t n = 0;
  for (double v : r.h) { s += v * p; p *= z; if ((++n & 255) == 0) p = std::polar (1.0, -w * (r.t0 + n)); }
  return c.up() ? s / double (c.ratio) : s;
}
// group delay in high-rate samples
inline double group_delay (const Cfg& c, const Response& r, double f)
{
  const double w = 2 * M_PI * f / c.ratio;
  std::complex<double> s = 0, d = 0;
  for (size_t i = 0; i < r.h.size(); i++) { double t = i + r.t0; auto e = std::polar (r.h[i], -w * t); s += e; d += e * t; }
  return (d / s).real();
}
inline double delay_high (const Cfg& c, double delay) { return c.up() ? delay : delay * c.ratio; }
inline size_t resp_units (const Cfg& c) { return c.fir() ? c.fir_mem() + 8 : 900; }
}
