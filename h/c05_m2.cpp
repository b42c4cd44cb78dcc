// @property C05
// @bounds real matrices up to 4x3 in 8 layouts on either side; every element symbolic
#include "cp.h"
static void go(int p) { int k = p % 8; sz s = { len("m", 1, 4), len("n", 1, 3) }; switch (p / 8) { case 0: CPS(4) break; case 1: CPS(5) break; case 2: CPS(6) break; case 3: CPS(7) break; } }
// @entry c05_mat_b params=0-31
ENTRY(c05_mat_b) { vsipl init; go(vsx_param()); }
