#include "C27_machine.h"
namespace { PBT_FACET(objects_move_only, 60000, 1500000) { Machine<TrackedTraits<false,true>> m(c); m.go(); } }
