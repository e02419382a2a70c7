#include "deliver.h"
SCEN(deliver_ref, 2) { deliver<long &>(r); }
SCEN(deliver_big, 1) { deliver<Big>(r); }
