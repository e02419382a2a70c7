#include "matimpl.h"
namespace mat {
MAT_TYPE(void)
Src src0(Rng &r, const Out *o) { return make_src<void>(r, o); }
} // namespace mat
