// @property C06
// @bounds complex vectors of 1-4 elements in every complex format; every element and written value symbolic
#include "dda.h"
typedef complex<float> cf;
typedef Layout<1, row1_type, dense, array> LD; typedef Layout<1, row1_type, any_packing, array> LN; typedef Layout<1, row1_type, unit_stride, array> LU; typedef Layout<1, row1_type, aligned_16, array> LA; typedef Layout<1, row1_type, aligned_64, array> LA6; typedef Layout<1, row1_type, dense, split_complex> LS; typedef Layout<1, row1_type, dense, interleaved_complex> LI; typedef Layout<1, row1_type, any_packing, any_storage_format> LX;
typedef Strided<1, cf, Layout<1, row1_type, dense, split_complex> > SP1; typedef Strided<1, cf, Layout<1, row1_type, dense, interleaved_complex> > IN1;
template <typename L> void cplx1(int k, int w) { length_type n = len("n", 1, 4);
  switch (k) {
  case 0: access<L>([&] { return Vector<cf>(n); }, [](auto v) { return v; }, w); break;
  case 1: access<L>([&] { return Vector<cf, SP1>(n); }, [](auto v) { return v; }, w); break;
  case 2: access<L>([&] { return Vector<cf, IN1>(n); }, [](auto v) { return v; }, w); break;
  case 3: access<L>([&] { return Vector<cf>(7); }, [&](auto v) { return v(Domain<1>(6, -2, n)); }, w); break;
  case 4: access<L>([&] { return Vector<cf, SP1>(8); }, [&](auto v) { return v(Domain<1>(1, 2, n)); }, w); break;
  case 5: access<L>([&] { return Matrix<cf, SPC>(2, n); }, [&](auto v) { return v.row(1); }, w); break; } }
template <typename L> void cplx1i(int k, int w) { length_type n = len("n", 1, 4);
  switch (k) {
  case 0: access<L>([&] { return Vector<cf>(n); }, [](auto v) { return v; }, w); break;
  case 1: access<L>([&] { return Vector<cf, SP1>(n); }, [](auto v) { return v; }, w); break;
  case 2: access<L>([&] { return Vector<cf, IN1>(n); }, [](auto v) { return v; }, w); break;
  case 4: access<L>([&] { return Vector<cf, SP1>(8); }, [&](auto v) { return v(Domain<1>(1, 2, n)); }, w); break;
  case 5: access<L>([&] { return Matrix<cf, SPC>(2, n); }, [&](auto v) { return v.row(1); }, w); break; } }
#define X1(L, nm) ENTRY(nm) { vsipl init; int p = vsx_param(); cplx1<L>(p % 6, p / 6); }
// @entry c06_c1_dense params=0-23
X1(LD, c06_c1_dense)
// @entry c06_c1_split params=0-23
X1(LS, c06_c1_split)
// @entry c06_c1_inter params=0-2,4-8,10-14,16-20,22-23
ENTRY(c06_c1_inter) { vsipl init; int p = vsx_param(); cplx1i<LI>(p % 6, p / 6); }
// @entry c06_c1_any params=0-23 tier=thorough
X1(LX, c06_c1_any)
