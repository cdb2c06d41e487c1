#include "C28_machine.h"
namespace { PBT_FACET(nothrow_movable, 24000, 900000) { Machine<true, Trk<true, 0>, std::string, Trk<true, 1>, double> m(c); m.go(); } }
