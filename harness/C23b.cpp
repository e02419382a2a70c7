#include "C23.h"
SCEN(move_to_ref, 2) { interruptible<MVal, long &>(r); }
SCEN(big_to_string, 2) { interruptible<Big, std::string>(r); }
