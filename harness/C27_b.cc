#include "C27_machine.h"
namespace { PBT_FACET(objects_throwing_move, 60000, 1500000) { Machine<TrackedTraits<true,false>> m(c); m.go(); } }
