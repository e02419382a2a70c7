#include "C24.h"
SCEN(await_ref, 2) { await_one<long &>(r); }
SCEN(await_move, 3) { await_one<MVal>(r); }
