// @property C04
// @bounds vectors of 1-3 elements, matrices up to 3x2, tensors 2x1x2; every element, scalar operand and probed position symbolic; element types float, double, int, bool, complex<float>
#include "c04.h"
// @entry c04_arith_c params=0-23
ENTRY(c04_arith_c) { vsipl init; arith1<cf, 1>(vsx_param()); }
