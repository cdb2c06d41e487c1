#include "C29_machine.h"
namespace { PBT_FACET(tracked_nothrow_moves, 40000, 1000000) { Machine<TrackedK<true, true, 0>, TrackedK<true, true, 1>> m(c); m.go(); } }
