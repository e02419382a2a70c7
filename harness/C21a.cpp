#include "C21.h"
SCEN_F(model_void, 3, vs::SEQ) { World<void> w(r); w.run(r.range(5, 60)); }
