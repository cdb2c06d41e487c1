#include "C27_machine.h"
namespace { PBT_FACET(strings, 60000, 1500000) { Machine<StringTraits> m(c); m.go(); } }
