#include "C01_machine.h"
PBT_FACET(string_3, 30000, 600000) { Machine<std::string, 3>(c).run(); }
