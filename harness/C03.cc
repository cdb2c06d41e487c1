// C03: SlidingBuffer is a bounded double-ended queue for every history.
#include "SB_machine.h"
namespace {
const bool cfg = [] {
    pbt::config().rule = "an element was pushed into a full buffer, an element was popped, and (run-time "
                         "capacity) a non-empty buffer changed its capacity";
    pbt::config().assumptions = { "capacities mostly up to 10, in some histories up to 700", "element types int, std::string, shared_ptr",
        "no pop on an empty and no push on a zero-capacity buffer (documented as undefined)" };
    return true;
}();
using Ptr = std::shared_ptr<long>;
}
PBT_FACET(fixed1_int, 18000, 400000) { sb::Machine<int, 1, false>(c).run(); }
PBT_FACET(fixed2_string, 18000, 400000) { sb::Machine<std::string, 2, false>(c).run(); }
PBT_FACET(fixed5_ptr, 24000, 600000) { sb::Machine<Ptr, 5, false>(c).run(); }
PBT_FACET(dynamic_int, 75000, 1600000) { sb::Machine<int, 0, false>(c).run(); }
PBT_FACET(dynamic_ptr, 30000, 800000) { sb::Machine<Ptr, 0, false>(c).run(); }
