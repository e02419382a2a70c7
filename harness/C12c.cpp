#include "C12.h"
SCEN_F(seq_void, 1, vs::SEQ) { vec<pc::future<void>>(r, true); clean(); }
SCEN(vec_ref, 1) { vec<pc::future<long &>>(r, false); clean(); }
SCEN(vec_shared_void, 1) { vec<pc::shared_future<void>>(r, false); clean(); }
