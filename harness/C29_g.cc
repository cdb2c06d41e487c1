#include "C29_machine.h"
namespace { PBT_FACET(move_only_value, 40000, 1000000) { Machine<TrackedK<false, true, 0>, StringK> m(c); m.go(); } }
