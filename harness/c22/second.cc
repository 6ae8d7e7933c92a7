// second translation unit that uses the library
#include "pandaresampler.hh"
using PandaResampler::Resampler2;
namespace {
struct Early { float v[160]; bool ok; Early() { Resampler2 r (Resampler2::UP, 4, Resampler2::PREC_96DB), d (Resampler2::DOWN, 2, Resampler2::PREC_72DB, true, Resampler2::FILTER_IIR); float x[40] = { 1, 0.5f, 0.25f }, w[160]; r.process_block (x, 40, v); d.process_block (v, 160, w); Resampler2 c (Resampler2::UP, 4, Resampler2::PREC_96DB, false); c.process_block (x, 40, w); ok = true; for (int i = 0; i < 160; i++) { float e = w[i] - v[i]; if (!(e < 1e-5f && e > -1e-5f)) ok = false; } ok = ok && r.order() == c.order() && Resampler2::find_precision_for_bits (13) == Resampler2::PREC_96DB; } } early;
}
float second_global (unsigned i) { return early.v[i]; }
bool second_ok() { return early.ok; }
bool second_same (Resampler2& r, const float *in, unsigned n, float *out) { r.process_block (in, n, out); return Resampler2::test_filter_impl (false); }
Resampler2 *second_make (Resampler2::Mode m, unsigned ratio, int prec, bool sse, int f) { return new Resampler2 (m, ratio, Resampler2::Precision (prec), sse, f ? Resampler2::FILTER_IIR : Resampler2::FILTER_FIR); }
