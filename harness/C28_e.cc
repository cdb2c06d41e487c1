#include "C28_machine.h"
namespace { PBT_FACET(move_only, 24000, 900000) { Machine<false, trk::Tracked<false, true, 0>, std::unique_ptr<int>, trk::Tracked<false, false, 1>, int> m(c); m.go(); } }
