#include "C01_machine.h"
PBT_FACET(string_8, 20000, 400000) { Machine<std::string, 8>(c).run(); }
