// @property C09
// @bounds views of which every one of 2 processors holds several patches, in different dimensions: matrices up to 4x4, tensors up to 4x2x4
#include "par.h"
template <typename T, typename OA, typename OB, typename A, typename B, dimension_type D> void assign1(Domain<D> d, T const *x, T const *z, A const &a, B const &b) { auto s = mkp<T, OA>(d, a); auto t = mkp<T, OB>(d, b); fill(s, d, x); fill(t, d, z); t = s; expect(t, d, [&](long g) { return x[g]; }, "assignment between views distributed over several patches stores every element at its position"); expect(s, d, [&](long g) { return x[g]; }, "assignment does not change its source"); }
typedef Map<Cyclic_dist, Cyclic_dist> CC2; typedef Map<Cyclic_dist, Block_dist, Cyclic_dist> CC3;
static CC2 cc(int k) { switch (k) { case 0: return CC2(Cyclic_dist(2), Cyclic_dist(1)); case 1: return CC2(Cyclic_dist(1), Cyclic_dist(2)); case 2: return CC2(pvec({1, 0}), Cyclic_dist(2), Cyclic_dist(1, 2)); default: return CC2(pvec({1, 0}), Cyclic_dist(1), Cyclic_dist(2)); } }
static CC3 cc3(int k) { return k ? CC3(pvec({1, 0}), Cyclic_dist(1), Block_dist(1), Cyclic_dist(2)) : CC3(Cyclic_dist(2), Block_dist(1), Cyclic_dist(1)); }
// @entry c09_cc params=0-3
ENTRY(c09_cc) { int a = vsx_param(), b = (int)pick("dst", 0, 3); length_type r = len("r", 3, 4), c = len("c", 3, 4); Domain<2> d(r, c); std::vector<int> x = syms<int>("x", r * c), z = syms<int>("z", r * c); ranks(2, [&](int) { assign1<int, col2_type, row2_type>(d, x.data(), z.data(), cc(a), cc(b)); }); }
// @entry c09_cb params=0-3
ENTRY(c09_cb) { int a = vsx_param(); length_type r = len("r", 3, 4), c = len("c", 3, 4); Domain<2> d(r, c); std::vector<float> x = syms<float>("x", r * c), z = syms<float>("z", r * c); ranks(2, [&](int) { assign1<float, row2_type, row2_type>(d, x.data(), z.data(), cc(a), Map<Block_dist, Cyclic_dist>(Block_dist(1), Cyclic_dist(2))); assign1<float, row2_type, row2_type>(d, x.data(), z.data(), Map<Cyclic_dist, Block_dist>(pvec({1, 0}), Cyclic_dist(2), Block_dist(1)), cc(a)); }); }
// @entry c09_cc3 params=0-1
ENTRY(c09_cc3) { int a = vsx_param(), b = (int)pick("dst", 0, 1); length_type r = len("r", 3, 4), e = len("e", 3, 4); Domain<3> d(r, 2, e); std::vector<int> x = syms<int>("x", r * 2 * e), z = syms<int>("z", r * 2 * e); ranks(2, [&](int) { assign1<int, row3_type, tuple<2, 0, 1> >(d, x.data(), z.data(), cc3(a), cc3(b)); }); }
