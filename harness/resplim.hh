// limits on pass band error and stop band for each configuration (accuracy of the documented designs plus a margin)
#pragma once
#include "resp.hh"
namespace mon {
const double FP = 18000.0 / 44100.0;
inline double fir_pass_db (const Cfg& c)
{
  static const struct { int p; double d[3]; } t[] = { { 1, { -8.9, -7.5, -7.2 } }, { 8, { -50.8, -48.3, -46.9 } }, { 12, { -72.6, -71.0, -68.3 } }, { 16, { -95.3, -91.7, -89.1 } },
                                                      { 20, { -120.2, -118.2, -117.8 } }, { 24, { -140.5, -136.0, -133.5 } } };
  for (auto& e : t) if (e.p == c.prec) return e.d[c.stages() - 1] + 0.8;
  return 0;
}
inline double stop_db (const Cfg& c)
{
  if (c.fir()) return (c.prec == 1 ? -8.8 : c.prec == 8 ? -50.7 : c.prec == 12 ? -72.5 : c.prec == 16 ? -95.2 : c.prec == 20 ? -119.9 : -137.5) + 0.8;
  return c.prec == 8 ? -51.0 : c.prec == 12 ? -83.5 : c.prec == 16 ? -99.5 : c.prec == 20 ? -127 : -136;
}
inline double gain_max (const Cfg& c)
{
  if (c.fir()) return c.prec == 1 ? 2e-6 : c.prec == 8 ? 6e-3 : c.prec == 12 ? 5e-4 : c.prec == 16 ? 4e-5 : c.prec == 20 ? 3e-6 : 1e-6;
  return 5e-7;
}
// IIR: amplitude error in the pass band
inline double iir_amp (const Cfg& c) { return c.prec == 8 ? 7e-6 : 4e-7; }
}
