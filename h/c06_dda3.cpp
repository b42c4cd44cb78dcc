// @property C06
// @bounds tensors up to 2x2x2 (2x1x3 included through the extents) in several dimension orders; expressions; every element and written value symbolic
#include "dda.h"
typedef complex<float> cf;
template <typename L> void ten(int k, int w) { length_type l = len("l", 1, 2), m = len("m", 1, 2), n = len("n", 1, 2);
  switch (k) {
  case 0: access<L>([&] { return Tensor<float>(l, m, n); }, [](auto v) { return v; }, w); break;
  case 1: access<L>([&] { return Tensor<float, Dense<3, float, T120> >(l, m, n); }, [](auto v) { return v; }, w); break;
  case 2: access<L>([&] { return Tensor<float, Dense<3, float, T201> >(l, m, n); }, [](auto v) { return v; }, w); break;
  case 3: access<L>([&] { return Tensor<float>(m, n, l); }, [](auto v) { return v.template transpose<2, 0, 1>(); }, w); break;
  case 4: access<L>([&] { return Tensor<float>(3, 3, 3); }, [&](auto v) { return v(Domain<3>(Domain<1>(0, 2, l), Domain<1>(2, -1, m), Domain<1>(1, 1, n))); }, w); break; } }
#define T3(nm, O, P) ENTRY(nm) { vsipl init; int p = vsx_param(); ten<Layout<3, O, P, array> >(p % 5, p / 5); }
// @entry c06_t_012 params=0-19
T3(c06_t_012, T012, dense)
// @entry c06_t_120 params=0-19
T3(c06_t_120, T120, dense)
// @entry c06_t_201 params=0-19
T3(c06_t_201, T201, dense)
// @entry c06_t_021u params=0-19 tier=thorough
T3(c06_t_021u, T021, unit_stride)
// @entry c06_t_210a params=0-19 tier=thorough
T3(c06_t_210a, T210, aligned_16)
// @entry c06_expr params=0-5
ENTRY(c06_expr) { vsipl init; length_type m = len("m", 1, 3), n = len("n", 1, 2); Matrix<float> a(m, n); Matrix<float, DC> b(m, n); Vector<cf> c(m); std::vector<float> x, y; std::vector<cf> z; for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) { x.push_back(sy<float>::mk("x")); y.push_back(sy<float>::mk("y")); a.put(i, j, x.back()); b.put(i, j, y.back()); } for (index_type i = 0; i < m; ++i) { z.push_back(sy<cf>::mk("z")); c.put(i, z.back()); }
  switch (vsx_param()) {
  case 0: reads<Layout<2, row2_type, dense, array> >(a + b, [&](Index<2> i) { return x[i[0] * n + i[1]] + y[i[0] * n + i[1]]; }); break;
  case 1: reads<Layout<2, col2_type, aligned_16, array> >(a * 2.f - b, [&](Index<2> i) { return x[i[0] * n + i[1]] * 2 - y[i[0] * n + i[1]]; }); break;
  case 2: reads<Layout<1, row1_type, dense, split_complex> >(c * cf(0, 1), [&](Index<1> i) { return cf(-z[i[0]].imag(), z[i[0]].real()); }); break;
  case 3: reads<Layout<1, row1_type, dense, interleaved_complex> >(c + c, [&](Index<1> i) { return z[i[0]] + z[i[0]]; }); break;
  case 4: reads<Layout<1, row1_type, dense, array> >((a + b).col(0), [&](Index<1> i) { return x[i[0] * n] + y[i[0] * n]; }); break;
  case 5: reads<Layout<2, col2_type, dense, array> >((a - b)(Domain<2>(Domain<1>(m - 1, -1, m), n)), [&](Index<2> i) { return x[(m - 1 - i[0]) * n + i[1]] - y[(m - 1 - i[0]) * n + i[1]]; }); break; } }
