#include "C20.h"
SCEN(copies_moveonly, 3) { copies<MVal>(r); }
SCEN(copies_ref, 2) { copies<long &>(r); }
