#include "deliver.h"
SCEN(deliver_mval, 3) { deliver<MVal>(r); }
