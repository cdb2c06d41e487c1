#include "C01_machine.h"
PBT_FACET(move_only_2, 20000, 400000) { Machine<Uniq, 2>(c).run(); }
