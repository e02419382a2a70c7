#define TK_MAIN
#include "C24.h"
SCEN(await_val, 4) { await_one<Val>(r); }
