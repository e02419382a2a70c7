#include "C12.h"
SCEN_F(seq_unique, 2, vs::SEQ) { vec<pc::future<Val>>(r, true); clean(); }
SCEN(vec_unique, 4) { vec<pc::future<Val>>(r, false); clean(); }
