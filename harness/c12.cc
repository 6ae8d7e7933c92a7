// C12: precision lookup (exhaustive), names, and the order of the measured accuracies.
#include "resp.hh"
#include <limits>
using namespace mon;
static Mon M;
int main (int argc, char **argv)
{
  M.init (argc, argv, "C12");
  const u32 lv[] = { 1, 8, 12, 16, 20, 24 };
  // every value of the argument
  const bool light = M.mode == "light";
  const u64 T = u64 (1) << (light ? 20 : 32);
  u32 prev = 0; bool first = true; u64 bad = 0;
  M.at ("lookup|-1|all values");
  for (u64 b = T * M.shard / M.nshard; b < T * (M.shard + 1) / M.nshard; b++)
    {
      u32 got = Resampler2::find_precision_for_bits (u32 (b));
      u32 want = 24; for (int i = 5; i >= 0; i--) if (b <= lv[i]) want = lv[i];
      if (got != want) { if (!bad++) M.viol ("lookup:" + std::to_string (want), -1, "find_precision_for_bits (%llu) = %u, expected %u", (unsigned long long) b, got, want); }
      if (!first && got < prev && !bad++) M.viol ("monotone", -1, "lookup decreases at %llu bits", (unsigned long long) b);
      prev = got; first = false;
    }
  M.stat ("lookup_values", double (T / M.nshard));
  for (int i = 0; i < 4096; i++) M.eval (mix (i, M.shard), true, T / M.nshard / 4096);
  if (M.shard == 0)
    {
      // names
      std::vector<std::string> names;
      const char *p0[6];
      for (int i = 0; i < 6; i++)
        {
          const char *n = Resampler2::precision_name (Resampler2::Precision (lv[i])); p0[i] = n;
          std::string s = n ? n : "";
          if (s.empty()) M.viol ("name:" + std::to_string (lv[i]), -1, "level %u has no name", lv[i]);
          for (auto& o : names) if (o == s) M.viol ("name-dup:" + s, -1, "two levels are named '%s'", s.c_str());
          names.push_back (s);
          if (lv[i] > 1 && s.find (std::to_string (lv[i]) + " bit") == std::string::npos && s.find (std::to_string (lv[i]) + "-bit") == std::string::npos)
            M.viol ("name-bits:" + std::to_string (lv[i]), -1, "level of %u bits is named '%s'", lv[i], s.c_str());
          if (lv[i] > 1 && s.find (std::to_string (lv[i] * 6)) == std::string::npos) M.viol ("name-db:" + std::to_string (lv[i]), -1, "level of %u dB is named '%s'", lv[i] * 6, s.c_str());
          M.sample ("level %u: '%s'", lv[i], s.c_str());
        }
      if (names[0].find ("linear") == std::string::npos) M.viol ("name-linear", -1, "PREC_LINEAR is named '%s'", names[0].c_str());
      std::string unk;
      for (int v = 0; v < 32; v++)     // the values the enumeration type can represent
        {
          bool level = false; for (u32 l : lv) if (int (l) == v) level = true;
          if (level) continue;
          const char *n = Resampler2::precision_name (Resampler2::Precision (v));
          if (!n || !*n) { M.viol ("unknown", -1, "value %d: empty name", v); break; }
          for (auto& o : names) if (o == n) { M.viol ("unknown-level", -1, "value %d has the name '%s' of a valid level", v, n); v = 3000; break; }
          if (unk.empty()) unk = n; else if (unk != n) { M.viol ("unknown-differs", -1, "unknown values have different names '%s', '%s'", unk.c_str(), n); break; }
          if (!strstr (n, "unknown")) { M.viol ("unknown-text", -1, "unknown value %d is named '%s'", v, n); break; }
          M.eval (mix (v, 55), true);
        }
      for (int i = 0; i < 6; i++) if (names[i] != p0[i]) M.viol ("stable", -1, "name of level %u changes", lv[i]);
      // measured accuracy never decreases with the level: pass band error + image/alias level
      const double FP = 18000. / 44100;
      for (int m = 0; m < 2; m++) for (u32 r : { 2u, 4u, 8u }) for (int f = 0; f < 2; f++) for (int s = 0; s < 2; s++)
        {
          double last = 1e9; u32 lastp = 0;
          for (u32 p : lv)
            {
              if (f && p == 1) continue;
              Cfg c { m ? Resampler2::DOWN : Resampler2::UP, r, int (p), s == 1, f ? Resampler2::FILTER_IIR : Resampler2::FILTER_FIR, 0 };
              M.at ("%s|-1|accuracy", c.name().c_str());
              auto x = c.make(); double dh = delay_high (c, x->delay());
              Response q = measure (c, resp_units (c));
              while (q.h.size() > 64 && std::fabs (q.h.back()) < 1e-13) q.h.pop_back();
              double err = 0;
              for (int i = 0; i <= 150; i++)
                {
                  double fr = FP * i / 150;
                  auto h = H (c, q, fr);
                  err = std::max (err, f ? std::fabs (std::abs (h) - 1) : std::abs (h * std::polar (1.0, 2 * M_PI * fr / r * dh) - 1.0));
                  for (u32 k = 1; k <= r / 2; k++) { err = std::max (err, std::abs (H (c, q, k - fr))); if (k + fr <= r / 2) err = std::max (err, std::abs (H (c, q, k + fr))); }
                }
              M.statmax ("error_dB_level_" + std::to_string (p), 20 * std::log10 (err));
              M.eval (mix (hash_str (c.name()), 3), true);
              if (!(err <= last * 1.02 + 3e-7)) M.viol ("accuracy:" + c.name(), -1, "%s: error %.2f dB, but level %u has %.2f dB", c.name().c_str(), 20 * std::log10 (err), lastp, 20 * std::log10 (last));
              last = err; lastp = p;
            }
        }
    }
  return M.finish();
}
