#include "C01_machine.h"
PBT_FACET(pod_2, 20000, 300000) { Machine<Pod, 2>(c).run(); }
