#include "C16_machine.h"
PBT_FACET(wide, 450000, 3600000) { ViewCheck<wchar_t> x{ c, {}, {} }; x.run(); }
