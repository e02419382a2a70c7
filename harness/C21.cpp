#define TK_MAIN
#include "C21.h"
SCEN_F(model_val, 4, vs::SEQ) { World<Val> w(r); w.run(r.range(5, 60)); }
