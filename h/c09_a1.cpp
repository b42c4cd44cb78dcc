// @property C09
// @bounds assignments
#include "par.h"
template <typename T, typename O, typename A, typename B, dimension_type D> void assign1(int np, Domain<D> d, T const *x, T const *z, A const &a, B const &b) { auto s = mkp<T, O>(d, a); auto t = mkp<T, O>(d, b); fill(s, d, x); fill(t, d, z); t = s; expect(t, d, [&](long g) { return x[g]; }, "assignment between differently mapped views stores every element at its position"); expect(s, d, [&](long g) { return x[g]; }, "assignment does not change its source"); }
template <typename T> void a1(int np, int sk, int dk, int lo, int hi) { length_type n = len("n", lo, hi); Domain<1> d(n); std::vector<T> x = syms<T>("x", n), z = syms<T>("z", n); ranks(np, [&](int) { map1(sk, np, [&](auto a) { map1(dk, np, [&](auto b) { assign1<T, row1_type>(np, d, x.data(), z.data(), a, b); }); }); }); }
// @entry c09_a1 params=0-9
ENTRY(c09_a1) { a1<float>(3, vsx_param(), (int)pick("dst", 0, 9), 1, 7); }
