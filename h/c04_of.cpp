// @property C04
// @bounds vectors of 1-3 elements, matrices up to 3x2, tensors 2x1x2; every element, scalar operand and probed position symbolic; element types float, double, int, bool, complex<float>
#include "c04.h"
// @entry c04_order_f params=0-13
ENTRY(c04_order_f) { vsipl init; order1<float, 0>(vsx_param()); }
// @entry c04_bits params=0-7
ENTRY(c04_bits) { vsipl init; int p = vsx_param(); switch (p) { case 0: lay<Iand, int, 0>(); break; case 1: lay<Ior, int, 1>(); break; case 2: lay<Ixor, int, 2>(); break; case 3: lay<Inot, int, 3>(); break; case 4: lay<Fband, int, 4>(); break; case 5: lay<Fbor, int, 5>(); break; case 6: lay<Fbxor, int, 6>(); break; case 7: lay<Iop, int, 7>(); break; } }
// complex blocks: interleaved and split, mixed real and complex operands
