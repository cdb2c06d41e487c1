#include "C29_machine.h"
namespace { PBT_FACET(string_value, 40000, 1000000) { Machine<StringK, IntK> m(c); m.go(); } }
