#include "C11.h"
SCEN_F(seq_unique, 2, vs::SEQ) { vec<pc::future<Val>>(r, true); clean(); }
SCEN(vec_unique, 4) { vec<pc::future<Val>>(r, false); clean(); }
SCEN(vec_move_only, 1) { vec<pc::future<MVal>>(r, false); clean(); }
