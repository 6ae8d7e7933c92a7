#include "pandaresampler.hh"
