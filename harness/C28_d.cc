#include "C28_machine.h"
namespace { PBT_FACET(repeated_types, 24000, 900000) { Machine<true, Trk<true, 0>, int, Trk<true, 0>, int, Trk<false, 1>> m(c); m.go(); } }
