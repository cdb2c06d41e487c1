#include "C29_machine.h"
namespace { PBT_FACET(tracked_throwing_error_move, 40000, 1000000) { Machine<TrackedK<true, true, 0>, TrackedK<true, false, 1>> m(c); m.go(); } }
