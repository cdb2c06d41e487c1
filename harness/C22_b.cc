#include "C22_machine.h"
namespace {
PBT_FACET(floats, 300000, 4000000)
{
    switch (c.below(4))
    {
    case 0: one<double, float, false>(c); break;
    case 1: one<long double, double, false>(c); break;
    case 2: one<long double, long double, false>(c); break;
    case 3: one<float, float, false>(c); break;
    }
}
} // namespace
