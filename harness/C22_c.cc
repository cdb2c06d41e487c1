#include "C22_machine.h"
namespace {
PBT_FACET(ints, 300000, 4000000)
{
    switch (c.below(1))
    {
    case 0: one<double, int, true>(c); break;
    }
}
} // namespace
