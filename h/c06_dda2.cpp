// @property C06
// @bounds matrices up to 3x2 in both orders, dense, aligned, split-complex and strided; every element and written value symbolic
#include "dda.h"
typedef complex<float> cf;
template <typename L> void mat(int k, int w) { length_type m = len("m", 1, 3), n = len("n", 1, 2);
  switch (k) {
  case 0: access<L>([&] { return Matrix<float, DR>(m, n); }, [](auto v) { return v; }, w); break;
  case 1: access<L>([&] { return Matrix<float, DC>(m, n); }, [](auto v) { return v; }, w); break;
  case 2: access<L>([&] { return Matrix<float, SR>(m, n); }, [](auto v) { return v; }, w); break;
  case 3: access<L>([&] { return Matrix<float, SC>(n, m); }, [](auto v) { return v.transpose(); }, w); break;
  case 4: access<L>([&] { return Matrix<float, DR>(5, 3); }, [&](auto v) { return v(Domain<2>(Domain<1>(4, -2, m), Domain<1>(0, 2, n))); }, w); break;
  case 5: access<L>([&] { return Matrix<float, DC>(4, 3); }, [&](auto v) { return v(Domain<2>(Domain<1>(1, 1, m), Domain<1>(1, 1, n))); }, w); break;
  case 6: access<L>([&] { return Tensor<float>(2, m, n); }, [&](auto v) { return v(1, whole_domain, whole_domain); }, w); break;
  case 7: access<L>([&] { return Matrix<float, DC>(n, m); }, [](auto v) { return v.transpose(); }, w); break; } }
template <typename L> void matc(int k, int w) { length_type m = len("m", 1, 2), n = len("n", 1, 2);
  switch (k) {
  case 0: access<L>([&] { return Matrix<cf, CR>(m, n); }, [](auto v) { return v; }, w); break;
  case 1: access<L>([&] { return Matrix<cf, SPC>(m, n); }, [](auto v) { return v; }, w); break;
  case 2: access<L>([&] { return Matrix<cf, SPR>(n, m); }, [](auto v) { return v.transpose(); }, w); break; } }
#define M2(nm, O, P) ENTRY(nm) { vsipl init; int p = vsx_param(); mat<Layout<2, O, P, array> >(p % 8, p / 8); }
// @entry c06_m_row_dense params=0-31
M2(c06_m_row_dense, row2_type, dense)
// @entry c06_m_col_dense params=0-31
M2(c06_m_col_dense, col2_type, dense)
