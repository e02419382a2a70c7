#include "matimpl.h"
namespace mat {
MAT_TYPE(Val)
Src src1(Rng &r, const Out *o) { return make_src<Val>(r, o); }
} // namespace mat
