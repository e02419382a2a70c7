#include "C21.h"
SCEN_F(model_ref, 3, vs::SEQ) { World<long &> w(r); w.run(r.range(5, 60)); }
