#include "C28_machine.h"
namespace { PBT_FACET(tracked_mixed, 24000, 900000) { Machine<true, Trk<true, 0>, Trk<false, 1>, int, std::string> m(c); m.go(); } }
