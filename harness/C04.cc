// C04: SlidingBufferExposed iterates over exactly the stored elements.
#include "SB_machine.h"
namespace {
const bool cfg = [] {
    pbt::config().rule = "an element was pushed into a full buffer, an element was popped, and (run-time "
                         "capacity) a non-empty buffer changed its capacity";
    pbt::config().assumptions = { "capacities mostly up to 10, in some histories up to 700", "element types int, std::string, shared_ptr",
        "no pop on an empty and no push on a zero-capacity buffer (documented as undefined)",
        "before the buffer is full, unused slots may be visited unless it was only filled from one side" };
    return true;
}();
using Ptr = std::shared_ptr<long>;
}
PBT_FACET(fixed1_int, 18000, 400000) { sb::Machine<int, 1, true>(c).run(); }
PBT_FACET(fixed3_string, 18000, 400000) { sb::Machine<std::string, 3, true>(c).run(); }
PBT_FACET(fixed5_ptr, 24000, 600000) { sb::Machine<Ptr, 5, true>(c).run(); }
PBT_FACET(dynamic_int, 75000, 1600000) { sb::Machine<int, 0, true>(c).run(); }
PBT_FACET(dynamic_ptr, 30000, 800000) { sb::Machine<Ptr, 0, true>(c).run(); }
