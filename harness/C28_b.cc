#include "C28_machine.h"
namespace { PBT_FACET(tracked_throwing_moves, 24000, 900000) { Machine<true, Trk<false, 0>, Trk<false, 1>, Trk<true, 2>> m(c); m.go(); } }
