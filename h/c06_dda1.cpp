// @property C06
// @bounds vectors of 1-4 elements; every element and written value symbolic
#include "dda.h"
typedef complex<float> cf;
typedef Layout<1, row1_type, dense, array> LD; typedef Layout<1, row1_type, any_packing, array> LN; typedef Layout<1, row1_type, unit_stride, array> LU; typedef Layout<1, row1_type, aligned_16, array> LA; typedef Layout<1, row1_type, aligned_64, array> LA6; typedef Layout<1, row1_type, dense, split_complex> LS; typedef Layout<1, row1_type, dense, interleaved_complex> LI; typedef Layout<1, row1_type, any_packing, any_storage_format> LX;
typedef Strided<1, cf, Layout<1, row1_type, dense, split_complex> > SP1; typedef Strided<1, cf, Layout<1, row1_type, dense, interleaved_complex> > IN1;
template <typename L> void real1(int k, int w) { length_type n = len("n", 1, 4);
  switch (k) {
  case 0: access<L>([&] { return Vector<float>(n); }, [](auto v) { return v; }, w); break;
  case 1: access<L>([&] { return Vector<float>(8); }, [&](auto v) { return v(Domain<1>(1, 2, n)); }, w); break;
  case 2: access<L>([&] { return Vector<float>(7); }, [&](auto v) { return v(Domain<1>(6, -2, n)); }, w); break;
  case 3: access<L>([&] { return Matrix<float>(n, 2); }, [&](auto v) { return v.col(1); }, w); break;
  case 4: access<L>([&] { return Matrix<float>(2, n); }, [&](auto v) { return v.row(1); }, w); break;
  case 5: access<L>([&] { return Matrix<float, DC>(n, 3); }, [&](auto v) { return v.diag(0); }, w); break;
  case 6: access<L>([&] { return Vector<cf>(n); }, [&](auto v) { return v.real(); }, w); break;
  case 7: access<L>([&] { return Vector<cf, SP1>(n); }, [&](auto v) { return v.imag(); }, w); break; } }
#define R1(L, nm) ENTRY(nm) { vsipl init; int p = vsx_param(); real1<L>(p % 8, p / 8); }
// @entry c06_r1_dense params=0-31
R1(LD, c06_r1_dense)
// @entry c06_r1_any params=0-31
R1(LN, c06_r1_any)
// @entry c06_r1_unit params=0-31 tier=thorough
R1(LU, c06_r1_unit)
// @entry c06_r1_al16 params=0-31
R1(LA, c06_r1_al16)
// @entry c06_r1_al64 params=0-31 tier=thorough
R1(LA6, c06_r1_al64)
