#include "C29_machine.h"
namespace { PBT_FACET(tracked_throwing_value_move, 40000, 1000000) { Machine<TrackedK<true, false, 0>, TrackedK<true, true, 1>> m(c); m.go(); } }
