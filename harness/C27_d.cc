#include "C27_machine.h"
namespace { PBT_FACET(ints, 60000, 1500000) { Machine<IntTraits> m(c); m.go(); } }
