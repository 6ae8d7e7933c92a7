// C22: a host that loads the program as a plugin, unloads it and loads it again, while it uses the library itself
#include "pandaresampler.hh"
#include <dlfcn.h>
#include <cstring>
#include <string>
using PandaResampler::Resampler2;
static bool same_file (const char *a, const char *b)
{
  FILE *f = fopen (a, "rb"), *g = fopen (b, "rb"); if (!f || !g) return false;
  int x, y; do { x = getc (f); y = getc (g); } while (x == y && x != EOF);
  fclose (f); fclose (g); return x == y;
}
int main (int argc, char **argv)
{
  if (argc < 3) return 3;
  Resampler2 own (Resampler2::UP, 4, Resampler2::PREC_96DB), iir (Resampler2::DOWN, 4, Resampler2::PREC_72DB, true, Resampler2::FILTER_IIR);
  float in[32], up[128], down[32], first[32]; for (int i = 0; i < 32; i++) in[i] = 1.f / (1 + (i * 7) % 11);
  own.process_block (in, 32, up); iir.process_block (up, 128, first);
  for (int k = 0; k < 3; k++)
    {
      void *h = dlopen ("./plug.so", RTLD_NOW | RTLD_LOCAL);
      if (!h) { fprintf (stderr, "%s\n", dlerror()); return 6; }
      int (*run) (int, char **) = (int (*) (int, char **)) dlsym (h, "plugin_main"); if (!run) return 6;
      std::string one = argv[1], two = argv[2]; if (!k) { one += ".first"; two += ".first"; }
      char *args[] = { argv[0], &one[0], &two[0], nullptr };
      const int rc = run (3, args); if (rc) return rc;
      if (dlclose (h)) return 6;
      if (k && (!same_file (argv[1], (std::string (argv[1]) + ".first").c_str()) || !same_file (argv[2], (std::string (argv[2]) + ".first").c_str()))) { fprintf (stderr, "a plugin that is loaded again gives other results\n"); return 7; }
      own.reset(); iir.reset(); own.process_block (in, 32, up); iir.process_block (up, 128, down);
      if (memcmp (first, down, sizeof down)) { fprintf (stderr, "the host gets other results while a plugin is loaded\n"); return 8; }
    }
  return 0;
}
