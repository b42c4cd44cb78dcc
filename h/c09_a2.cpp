// @property C09
// @bounds matrices up to 4x3, tensors up to 2x3x2
#include "par.h"
template <typename T, typename OA, typename OB, typename A, typename B, dimension_type D> void assign1(Domain<D> d, T const *x, T const *z, A const &a, B const &b) { auto s = mkp<T, OA>(d, a); auto t = mkp<T, OB>(d, b); fill(s, d, x); fill(t, d, z); t = s; expect(t, d, [&](long g) { return x[g]; }, "assignment between differently mapped views stores every element at its position"); expect(s, d, [&](long g) { return x[g]; }, "assignment does not change its source"); }
template <typename T, typename OA, typename OB> void a2(int np, int sk, int dk, int hr, int hc) { length_type r = len("r", 1, hr), c = len("c", 1, hc); Domain<2> d(r, c); std::vector<T> x = syms<T>("x", r * c), z = syms<T>("z", r * c); ranks(np, [&](int) { map2(sk, np, [&](auto a) { map2(dk, np, [&](auto b) { assign1<T, OA, OB>(d, x.data(), z.data(), a, b); }); }); }); }
template <typename T, typename OA, typename OB> void a3(int np, int sk, int dk) { length_type r = len("r", 1, 2), c = len("c", 1, 3), e = len("e", 1, 2); Domain<3> d(r, c, e); std::vector<T> x = syms<T>("x", r * c * e), z = syms<T>("z", r * c * e); ranks(np, [&](int) { map3(sk, np, [&](auto a) { map3(dk, np, [&](auto b) { assign1<T, OA, OB>(d, x.data(), z.data(), a, b); }); }); }); }
// @entry c09_a2rr params=0-9
ENTRY(c09_a2rr) { a2<float, row2_type, row2_type>(4, vsx_param(), (int)pick("dst", 0, 9), 4, 3); }
// @entry c09_a2rc params=0-9
ENTRY(c09_a2rc) { a2<complex<float>, row2_type, col2_type>(3, vsx_param(), (int)pick("dst", 0, 9), 4, 3); }
// @entry c09_a3 params=0-4
ENTRY(c09_a3) { a3<float, row3_type, tuple<1, 2, 0> >(4, vsx_param(), (int)pick("dst", 0, 4)); }
