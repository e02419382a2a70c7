#include "C24.h"
SCEN(await_void, 3) { await_one<void>(r); }
