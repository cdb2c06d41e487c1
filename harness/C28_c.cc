#include "C28_machine.h"
namespace { PBT_FACET(trivial_alternatives, 24000, 900000) { Machine<true, int, double, unsigned char> m(c); m.go(); } }
