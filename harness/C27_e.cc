#include "C27_machine.h"
namespace { PBT_FACET(bools, 60000, 1500000) { Machine<BoolTraits> m(c); m.go(); } }
