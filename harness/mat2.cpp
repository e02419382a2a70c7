#include "matimpl.h"
namespace mat {
MAT_TYPE(MVal)
Src src2(Rng &r, const Out *o) { return make_src<MVal>(r, o); }
} // namespace mat
