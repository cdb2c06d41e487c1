#include "C22_machine.h"
namespace {
PBT_FACET(doubles, 300000, 4000000)
{
    switch (c.below(1))
    {
    case 0: one<double, double, true>(c); break;
    }
}
} // namespace
