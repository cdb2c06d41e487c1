#include "C23_machine.h"
namespace {
PBT_FACET(outliers_floating, 400000, 5000000) { if (c.coin()) outliers<double>(c); else outliers<float>(c); }
} // namespace
