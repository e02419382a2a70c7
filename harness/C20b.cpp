#include "C20.h"
SCEN(copies_big, 2) { copies<Big>(r); }
SCEN(copies_string, 2) { copies<std::string>(r); }
