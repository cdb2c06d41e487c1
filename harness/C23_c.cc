#include "C23_machine.h"
namespace {
PBT_FACET(outliers_integers, 400000, 5000000)
{
    switch (c.below(4))
    {
    case 0: outliers<int>(c); break;
    case 1: outliers<unsigned>(c); break;
    case 2: outliers<std::uint8_t>(c); break;
    default: outliers<std::int64_t>(c); break;
    }
}
} // namespace
