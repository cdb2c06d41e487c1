#include "C29_machine.h"
namespace { PBT_FACET(trivial, 40000, 1000000) { Machine<IntK, DoubleK> m(c); m.go(); } }
