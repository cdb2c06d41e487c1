#include "C16_machine.h"
PBT_FACET(utf16, 450000, 3600000) { ViewCheck<char16_t> x{ c, {}, {} }; x.run(); }
