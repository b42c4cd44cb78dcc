// @property C05
// @bounds real matrices up to 4x3 in 8 layouts on either side; every element symbolic
#include "cp.h"
static void go(int p) { int k = p % 8; sz s = { len("m", 1, 4), len("n", 1, 3) }; switch (p / 8) { case 0: CPS(0) break; case 1: CPS(1) break; case 2: CPS(2) break; case 3: CPS(3) break; } }
// @entry c05_mat_a params=0-31
ENTRY(c05_mat_a) { vsipl init; go(vsx_param()); }
