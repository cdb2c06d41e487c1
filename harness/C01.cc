// C01: SmallVector behaves like a vector of its elements for every history of operations.
#include "C01_machine.h"

namespace {
const bool cfg = [] {
    pbt::config().rule = "the history moved elements out of the inner storage and shifted elements "
                         "(insert before the end, or erase) at least once";
    pbt::config().assumptions = { "no memory allocation failure", "sizes mostly below 50, in some histories up to a few thousand elements",
        "element types: int, 9-byte aggregate, std::string, move-only; inner capacities 1, 2, 3, 5, 8" };
    return true;
}();

} // namespace

PBT_FACET(int_1, 20000, 400000) { Machine<int, 1>(c).run(); }
PBT_MAIN
