#include "sim.h"
static void one_case (void) { sim_case (); }
