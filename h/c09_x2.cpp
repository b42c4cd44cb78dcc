// @property C09
// @bounds matrices up to 3x3
#include "par.h"
template <typename F> void m2(int k, int np, F f) { int h = np / 2, q = np / h; std::vector<int> rev; for (int i = 0; i < np; ++i) rev.push_back(np - 1 - i); switch (k) { case 0: f(Replicated_map<2>()); break; case 1: f(Map<>(Block_dist(np), Block_dist(1))); break; case 2: f(Map<>(pvec(rev), Block_dist(1), Block_dist(np))); break; case 3: f(Map<>(Block_dist(h), Block_dist(q))); break; } }
template <typename F> void m1(int k, int np, F f) { switch (k) { case 0: f(Replicated_map<1>()); break; case 1: f(Map<>(Block_dist(np))); break; case 2: f(Map<>(Block_dist(1))); break; } }
// rows and columns as sources and destinations
template <typename O> void rc(int p) { int np = 4; length_type r = len("r", 1, 3), c = len("c", 2, 3); index_type i = pick("i", 0, 2); vsx_assume((i < r)); Domain<2> d(r, c); auto x = syms<float>("x", r * c), z = syms<float>("z", r + c); ranks(np, [&](int) { m2(p % 4, np, [&](auto a) { m1(p / 4, np, [&](auto b) { auto m = mkp<float, O>(d, a); fill(m, d, x.data()); index_type j = i < c ? i : 0; 
  auto v = mkp<float, row1_type>(Domain<1>(c), b); auto w = mkp<float, row1_type>(Domain<1>(r), b); v = m.row(i); expect(v, Domain<1>(c), [&](long g) { return x[i * c + g]; }, "row of a distributed matrix"); w = m.col(j); expect(w, Domain<1>(r), [&](long g) { return x[g * c + j]; }, "column of a distributed matrix"); v = v + m.row(0); expect(v, Domain<1>(c), [&](long g) { return x[i * c + g] + x[g]; }, "row of a distributed matrix in an expression");
  fill(v, Domain<1>(c), z.data()); m.row(i) = v; expect(m, d, [&](long g) { return g / (long)c == (long)i ? z[g % c] : x[g]; }, "assignment to a row of a distributed matrix"); fill(m, d, x.data()); fill(w, Domain<1>(r), z.data()); m.col(j) = w; expect(m, d, [&](long g) { return g % (long)c == (long)j ? z[g / c] : x[g]; }, "assignment to a column of a distributed matrix"); }); }); }); }
// @entry c09_rcr params=0-11
ENTRY(c09_rcr) { rc<row2_type>(vsx_param()); }
// @entry c09_rcc params=0-11
ENTRY(c09_rcc) { rc<col2_type>(vsx_param()); }
// transposes and sub-matrices
// @entry c09_tr params=0-15
ENTRY(c09_tr) { int p = vsx_param(), np = 4; length_type r = len("r", 1, 3), c = len("c", 1, 3); Domain<2> d(r, c), dt(c, r); auto x = syms<float>("x", r * c), y = syms<float>("y", r * c); ranks(np, [&](int) { m2(p % 4, np, [&](auto a) { m2(p / 4, np, [&](auto b) { auto m = mkp<float, row2_type>(d, a); auto t = mkp<float, row2_type>(dt, b); auto u = mkp<float, row2_type>(dt, a); fill(m, d, x.data()); fill(u, dt, y.data()); t = m.transpose(); expect(t, dt, [&](long g) { return x[(g % r) * c + g / r]; }, "transpose of a distributed matrix"); t = m.transpose() + u; expect(t, dt, [&](long g) { return x[(g % r) * c + g / r] + y[g]; }, "transpose of a distributed matrix in an expression"); }); }); }); }
// @entry c09_sm params=0-15
ENTRY(c09_sm) { int p = vsx_param(), np = 4; length_type n = 3; Domain<2> d(n, n); auto x = syms<float>("x", n * n), z = syms<float>("z", n * n); long k0 = pick("k0", 1, 3), k1 = pick("k1", 1, 3), f0 = pick("f0", 0, 2), f1 = pick("f1", 0, 2), g0 = pick("g0", 0, 1), g1 = pick("g1", 0, 1); vsx_assume((f0 + k0 <= 3) & (f1 + k1 <= 3) & (g0 + k0 <= 3) & (g1 + k1 <= 3)); Domain<2> e(Domain<1>(f0, 1, k0), Domain<1>(f1, 1, k1)), g(Domain<1>(g0, 1, k0), Domain<1>(g1, 1, k1)), s(k0, k1);
  ranks(np, [&](int) { m2(p % 4, np, [&](auto a) { m2(p / 4, np, [&](auto b) { auto m = mkp<float, row2_type>(d, a); auto t = mkp<float, row2_type>(d, b), u = mkp<float, row2_type>(s, b); fill(m, d, x.data()); fill(t, d, z.data()); u = m(e); expect(u, s, [&](long q) { return x[(f0 + q / k1) * 3 + f1 + q % k1]; }, "sub-matrix of a distributed matrix"); t(g) = m(e); expect(t, d, [&](long q) { long i = q / 3 - g0, j = q % 3 - g1; return i >= 0 && i < k0 && j >= 0 && j < k1 ? x[(f0 + i) * 3 + f1 + j] : z[q]; }, "assignment to a distributed sub-matrix changes exactly its elements"); expect(m, d, [&](long q) { return x[q]; }, "the source is unchanged"); }); }); }); }
// element references, compound assignment and reductions of matrices
// @entry c09_mx params=0-3
ENTRY(c09_mx) { int p = vsx_param(), np = 3; length_type r = len("r", 1, 3), c = len("c", 1, 2); index_type i = pick("i", 0, 2), j = pick("j", 0, 1); vsx_assume((i < r) & (j < c)); Domain<2> d(r, c); auto x = syms<float>("x", r * c); float y = vsx_f32("y", -9, 9); ranks(np, [&](int) { auto go = [&](auto a) { auto m = mkp<float, col2_type>(d, a); fill(m, d, x.data()); for (index_type k = 0; k < r * c; ++k) CHECK(m.get(k / c, k % c) == x[k], "get on a distributed matrix"); m.put(i, j, y); expect(m, d, [&](long g) { return g == (long)(i * c + j) ? y : x[g]; }, "put on a distributed matrix"); CHECK(m.get(i, j) == y, "put on a distributed matrix"); Index<2> q; float s = 0, M = m.get(0, 0); for (index_type k = 0; k < r * c; ++k) { float e = k == i * c + j ? y : x[k]; s += e; M = e > M ? e : M; } CHECK(vsip::sumval(m) == s, "sum of a distributed matrix"); float mx = vsip::maxval(m, q); CHECK(mx == M, "maximum of a distributed matrix"); CHECK(m.get(q[0], q[1]) == M, "position of the maximum of a distributed matrix"); };
  switch (p) { case 0: go(Replicated_map<2>()); break; case 1: go(Map<>(Block_dist(3), Block_dist(1))); break; case 2: go(Map<Cyclic_dist, Block_dist>(pvec({2, 0}), Cyclic_dist(2), Block_dist(1))); break; case 3: go(Replicated_map<2>(pvec({2, 1}))); break; } }); }
// tensors
template <typename F> void m3(int k, int np, F f) { switch (k) { case 0: f(Replicated_map<3>()); break; case 1: f(Map<>(Block_dist(np), Block_dist(1), Block_dist(1))); break; case 2: f(Map<>(Block_dist(1), Block_dist(2), Block_dist(np / 2))); break; case 3: f(Map<>(Block_dist(2), Block_dist(1), Block_dist(np / 2))); break; } }
// @entry c09_t3 params=0-7
ENTRY(c09_t3) { int p = vsx_param(), np = 4; length_type a0 = 2, a1 = 3, a2 = 2; index_type i = pick("i", 0, 1), j = pick("j", 0, 2), k = pick("k", 0, 1); Domain<3> d(a0, a1, a2); auto x = syms<float>("x", 12), z = syms<float>("z", 12); ranks(np, [&](int) { m3(p % 4, np, [&](auto a) { auto t = mkp<float, row3_type>(d, a); fill(t, d, x.data()); auto go = [&](auto b1, auto b2) { auto v0 = mkp<float, row1_type>(Domain<1>(2), b1), v1 = mkp<float, row1_type>(Domain<1>(3), b1), v2 = mkp<float, row1_type>(Domain<1>(2), b1);
  whole_domain_type w = whole_domain; v0 = t(w, j, k); expect(v0, Domain<1>(2), [&](long g) { return x[g * 6 + j * 2 + k]; }, "fibre of a distributed tensor"); v1 = t(i, w, k); expect(v1, Domain<1>(3), [&](long g) { return x[i * 6 + g * 2 + k]; }, "fibre of a distributed tensor"); v2 = t(i, j, w); expect(v2, Domain<1>(2), [&](long g) { return x[i * 6 + j * 2 + g]; }, "fibre of a distributed tensor");
  Domain<2> d12(3, 2), d02(2, 2), d01(2, 3); auto m12 = mkp<float, row2_type>(d12, b2), m02 = mkp<float, row2_type>(d02, b2), m01 = mkp<float, row2_type>(d01, b2); fill(m12, d12, z.data()); m12 = t(i, w, w) + m12; expect(m12, d12, [&](long g) { return x[i * 6 + g] + z[g]; }, "slice of a distributed tensor"); fill(m02, d02, z.data()); m02 = t(w, j, w) + m02; expect(m02, d02, [&](long g) { return x[g / 2 * 6 + j * 2 + g % 2] + z[g]; }, "slice of a distributed tensor"); fill(m01, d01, z.data()); m01 = t(w, w, k) + m01; expect(m01, d01, [&](long g) { return x[g / 3 * 6 + g % 3 * 2 + k] + z[g]; }, "slice of a distributed tensor");
  fill(v1, Domain<1>(3), z.data()); t(i, w, k) = v1; expect(t, d, [&](long g) { return (g / 6 == (long)i) & (g % 2 == (long)k) ? z[g / 2 % 3] : x[g]; }, "assignment to a fibre of a distributed tensor"); }; if (p / 4 == 0) go(Replicated_map<1>(), Replicated_map<2>()); else go(Map<>(Block_dist(2)), Map<>(Block_dist(1), Block_dist(2))); }); }); }
