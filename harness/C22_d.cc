#include "C22_machine.h"
namespace {
PBT_FACET(integers, 300000, 4000000)
{
    switch (c.below(6))
    {
    case 0: one<double, unsigned, false>(c); break;
    case 1: one<double, std::int64_t, false>(c); break;
    case 2: one<double, std::uint64_t, false>(c); break;
    case 3: one<double, std::int8_t, false>(c); break;
    case 4: one<float, std::uint16_t, false>(c); break;
    case 5: one<long double, std::int64_t, false>(c); break;
    }
}
} // namespace
