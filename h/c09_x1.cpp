// @property C09
// @bounds vectors up to 5 elements
#include "par.h"
#include <ovxx/parallel/assign_local.hpp>
template <typename F> void m1(int k, int np, F f) { std::vector<int> rot; for (int i = 0; i < np; ++i) rot.push_back((i + 1) % np); switch (k) { case 0: f(Replicated_map<1>()); break; case 1: f(Map<Block_dist>(Block_dist(np))); break; case 2: f(Map<Block_dist>(pvec(rot), Block_dist(np - 1))); break; case 3: f(Map<Cyclic_dist>(Cyclic_dist(np))); break; case 4: f(Map<Cyclic_dist>(pvec(rot), Cyclic_dist(np - 1, 2))); break; } }
// @entry c09_expr params=0-24
ENTRY(c09_expr) { int np = 3, p = vsx_param(); long dst = pick("dst", 0, 4); length_type n = pick("n", 2, 4); Domain<1> d(n); auto x = syms<float>("x", n), y = syms<float>("y", n); float k = vsx_f32("k", -5, 5); ranks(np, [&](int) { m1(p % 5, np, [&](auto a) { m1(p / 5 % 5, np, [&](auto b) { m1((int)dst, np, [&](auto c) {
  auto u = mkp<float, row1_type>(d, a), v = mkp<float, row1_type>(d, a); auto w = mkp<float, row1_type>(d, b); auto t = mkp<float, row1_type>(d, c); fill(u, d, x.data()); fill(w, d, y.data()); 
  t = u + w; expect(t, d, [&](long g) { return x[g] + y[g]; }, "distributed sum"); t = k * u - w; expect(t, d, [&](long g) { return k * x[g] - y[g]; }, "distributed scaled difference"); t += u; expect(t, d, [&](long g) { return k * x[g] - y[g] + x[g]; }, "distributed compound assignment"); v = u * k + 2.f; expect(v, d, [&](long g) { return x[g] * k + 2.f; }, "distributed expression without reorganisation"); t = k; expect(t, d, [&](long) { return k; }, "distributed scalar assignment");
  expect(u, d, [&](long g) { return x[g]; }, "operands are unchanged"); expect(w, d, [&](long g) { return y[g]; }, "operands are unchanged"); }); }); }); }); }
