// @property C04
// @bounds vectors of 1-3 elements, matrices up to 3x2, tensors 2x1x2; every element, scalar operand and probed position symbolic; element types float, double, int, bool, complex<float>
#include "c04.h"
// @entry c04_arith_f params=0-23
ENTRY(c04_arith_f) { vsipl init; arith1<float, 0>(vsx_param()); }
