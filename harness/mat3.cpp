#include "matimpl.h"
namespace mat {
MAT_TYPE(long &)
Src src3(Rng &r, const Out *o) { return make_src<long &>(r, o); }
Src src0(Rng &r, const Out *o);
Src src1(Rng &r, const Out *o);
Src src2(Rng &r, const Out *o);
Src source(Rng &r, int t, const Out *o) { return t == 0 ? src0(r, o) : t == 1 ? src1(r, o) : t == 2 ? src2(r, o) : src3(r, o); }
} // namespace mat
