#include "C29_machine.h"
namespace { PBT_FACET(trivial_value_string_error, 40000, 1000000) { Machine<DoubleK, StringK> m(c); m.go(); } }
