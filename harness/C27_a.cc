#include "C27_machine.h"
namespace { PBT_FACET(objects_copyable, 60000, 1500000) { Machine<TrackedTraits<true,true>> m(c); m.go(); } }
