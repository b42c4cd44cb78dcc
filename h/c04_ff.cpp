// @property C04
// @bounds vectors of 1-3 elements, matrices up to 3x2, tensors 2x1x2; every element, scalar operand and probed position symbolic; element types float, double, int, bool, complex<float>
#include "c04.h"
// @entry c04_func_f params=0-16
ENTRY(c04_func_f) { vsipl init; func1<float, 0>(vsx_param()); }
// @entry c04_order_i params=0-7
ENTRY(c04_order_i) { vsipl init; order1<int, 2>(vsx_param()); }
