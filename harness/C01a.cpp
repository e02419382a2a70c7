#include "deliver.h"
SCEN(deliver_val, 4) { deliver<Val>(r); }
