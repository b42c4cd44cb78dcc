// @property C06
// @bounds run-time layouts of windows: matrices up to 3x3 and tensors up to 2x2x2 inside parents that are larger by one in any subset of the dimensions, either end, all dimension orders, dense / unit-stride / aligned packing, all complex formats; every element and written value symbolic
#include "rtl.h"
// @entry c06_rtw2 params=0-11
ENTRY(c06_rtw2) { vsipl init; int p = vsx_param(); length_type m = len("m", 1, 3), n = len("n", 1, 3), a = pick("a", 0, 1), b = pick("b", 0, 1); auto l = rtl<2>(p & 1 ? Rt_tuple(1, 0, 2) : Rt_tuple(0, 1, 2), pk(p / 2 % 3), array);
  auto w = [&](auto v) { return v(Domain<2>(Domain<1>(a, 1, m), Domain<1>(0, 1, n))); };
  if (p < 6) rt([&] { return Matrix<float>(m + a, n + b); }, w, l, 1); else rt([&] { return Matrix<float, DC>(m + a, n + b); }, w, l, 1); }
// @entry c06_rtw3 params=0-35
ENTRY(c06_rtw3) { vsipl init; int p = vsx_param(); length_type a = len("l", 1, 2), m = len("m", 1, 2), n = len("n", 1, 2); int e = pick("e", 1, 7); int ea = e & 1, em = e / 2 & 1, en = e / 4; auto l = rtl<3>(ord3(p % 6), pk(p / 12), array);
  auto w = [&](auto v) { return v(Domain<3>(Domain<1>(ea, 1, a), Domain<1>(0, 1, m), Domain<1>(en, 1, n))); };
  if (p / 6 % 2) rt([&] { return Tensor<float, Dense<3, float, T201> >(a + ea, m + em, n + en); }, w, l, p / 12 == 0); else rt([&] { return Tensor<float>(a + ea, m + em, n + en); }, w, l, p / 12 == 0); }
// @entry c06_rtwc params=0-11
ENTRY(c06_rtwc) { vsipl init; int p = vsx_param(); length_type m = len("m", 1, 2), n = len("n", 1, 2), a = pick("a", 0, 1), b = pick("b", 0, 1); storage_format_type f = p % 3 == 0 ? array : p % 3 == 1 ? interleaved_complex : split_complex; auto l = rtl<2>(p / 3 % 2 ? Rt_tuple(1, 0, 2) : Rt_tuple(0, 1, 2), dense, f);
  auto w = [&](auto v) { return v(Domain<2>(Domain<1>(0, 1, m), Domain<1>(b, 1, n))); };
  if (p < 6) rt([&] { return Matrix<cf, CR>(m + a, n + b); }, w, l, 1); else rt([&] { return Matrix<cf, SPC>(m + a, n + b); }, w, l, 1); }
