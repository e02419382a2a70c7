#include "C23.h"
SCEN(val_to_void, 2) { interruptible<Val, void>(r); }
SCEN(ref_to_move, 2) { interruptible<long &, MVal>(r); }
