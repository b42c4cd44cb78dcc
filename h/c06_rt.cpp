// @property C06
// @bounds run-time layouts: vectors of 1-3 elements, matrices up to 3x2, tensors up to 2x2x2, all dimension orders, dense / unit-stride / aligned packing, all complex formats; every element and written value symbolic
#include "rtl.h"
// @entry c06_rt2 params=0-23
ENTRY(c06_rt2) { vsipl init; int p = vsx_param(); length_type m = len("m", 1, 3), n = len("n", 1, 2); auto l = rtl<2>(p & 1 ? Rt_tuple(1, 0, 2) : Rt_tuple(0, 1, 2), pk(p / 2 % 3), array); int w = p / 6 % 2;
  if (p < 12) rt([&] { return Matrix<float>(m, n); }, [](auto v) { return v; }, l, w); else rt([&] { return Matrix<float, DC>(5, 4); }, [&](auto v) { return v(Domain<2>(Domain<1>(4, -2, m), Domain<1>(1, 2, n))); }, l, w); }
// @entry c06_rt3 params=0-35
ENTRY(c06_rt3) { vsipl init; int p = vsx_param(); length_type a = len("l", 1, 2), m = len("m", 1, 2), n = len("n", 1, 2); auto l = rtl<3>(ord3(p % 6), pk(p / 6 % 3), array); if (p < 18) rt([&] { return Tensor<float>(a, m, n); }, [](auto v) { return v; }, l, 1); else rt([&] { return Tensor<float, Dense<3, float, T120> >(a, m, n); }, [](auto v) { return v; }, l, 1); }
// @entry c06_rtc params=0-23
ENTRY(c06_rtc) { vsipl init; int p = vsx_param(); length_type m = len("m", 1, 2), n = len("n", 1, 2); storage_format_type f = p % 3 == 0 ? array : p % 3 == 1 ? interleaved_complex : split_complex; auto l = rtl<2>(p / 3 % 2 ? Rt_tuple(1, 0, 2) : Rt_tuple(0, 1, 2), dense, f); int w = p / 6 % 2;
  if (p < 12) rt([&] { return Matrix<cf, CR>(m, n); }, [](auto v) { return v; }, l, w); else rt([&] { return Matrix<cf, SPC>(m, n); }, [](auto v) { return v; }, l, w); }
