#include "C11.h"
SCEN_F(seq_shared, 2, vs::SEQ) { vec<pc::shared_future<Val>>(r, true); clean(); }
SCEN(vec_shared, 4) { vec<pc::shared_future<Val>>(r, false); clean(); }
