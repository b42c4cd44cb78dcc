// @property C09
// @bounds vectors up to 5 elements
#include "par.h"
#include <ovxx/parallel/assign_local.hpp>
template <typename F> void m1(int k, int np, F f) { std::vector<int> rot; for (int i = 0; i < np; ++i) rot.push_back((i + 1) % np); switch (k) { case 0: f(Replicated_map<1>()); break; case 1: f(Map<Block_dist>(Block_dist(np))); break; case 2: f(Map<Block_dist>(pvec(rot), Block_dist(np - 1))); break; case 3: f(Map<Cyclic_dist>(Cyclic_dist(np))); break; case 4: f(Map<Cyclic_dist>(pvec(rot), Cyclic_dist(np - 1, 2))); break; } }
// @entry c09_get params=0-9
ENTRY(c09_get) { int np = 3, p = vsx_param(); length_type n = len("n", 1, 5); index_type i = pick("i", 0, 4); vsx_assume(i < n); Domain<1> d(n); auto x = syms<int>("x", n); int y = vsx_int("y", -9, 9); ranks(np, [&](int) { map1(p, np, [&](auto a) { auto u = mkp<int, row1_type>(d, a); fill(u, d, x.data()); for (index_type j = 0; j < n; ++j) CHECK(u.get(j) == x[j], "get on a distributed view returns the element to every processor"); u.put(i, y); for (index_type j = 0; j < n; ++j) CHECK(u.get(j) == (j == i ? y : x[j]), "put on a distributed view changes the element"); expect(u, d, [&](long g) { return g == (long)i ? y : x[g]; }, "put on a distributed view changes the element and no other");
  u(i) += 3; int e = u(i); CHECK(e == y + 3, "element references of distributed views"); expect(u, d, [&](long g) { return g == (long)i ? y + 3 : x[g]; }, "element references of distributed views"); }); }); }
// @entry c09_red params=0-9
ENTRY(c09_red) { int np = 3, p = vsx_param(); length_type n = len("n", 1, 4); Domain<1> d(n); std::vector<float> x(n); for (length_type i = 0; i < n; ++i) x[i] = vsx_f32("x", -9, 9); ranks(np, [&](int) { map1(p, np, [&](auto a) { auto u = mkp<float, row1_type>(d, a); fill(u, d, x.data()); float s = 0, q = 0; for (float e : x) { s += e; q += e * e; } CHECK(vsip::sumval(u) == s, "distributed sum"); CHECK(vsip::sumsqval(u) == q, "distributed sum of squares"); Index<1> i, j; float M = vsip::maxval(u, i), m = vsip::minval(u, j); bool a1 = true, a2 = true; for (float e : x) { a1 &= e <= M; a2 &= e >= m; } CHECK(a1 & a2 & (i[0] < n) & (j[0] < n), "distributed extremum"); bool f1 = false, f2 = false; for (index_type k = 0; k < n; ++k) { f1 |= (k == i[0]) & (x[k] == M); f2 |= (k == j[0]) & (x[k] == m); } CHECK(f1 & f2, "position of a distributed extremum"); CHECK(vsip::sumval(u + u) == 2 * s, "distributed sum of an expression"); }); }); }
// @entry c09_sub params=0-8
ENTRY(c09_sub) { int np = 3, p = vsx_param(); length_type n = 5; Domain<1> d(n); auto x = syms<float>("x", n), z = syms<float>("z", n); long k = pick("k", 1, 4), f1 = pick("f", 0, 4), s1 = pick("s", 1, 3), f2 = pick("g", 0, 4), s2 = pick("t", 1, 2); vsx_assume(f1 + (k - 1) * s1 < 5); vsx_assume(f2 + (k - 1) * s2 < 5); if (k == 1) vsx_assume((s1 == 1) & (s2 == 1)); Domain<1> e(f1, s1, k), g(f2, s2, k);
  ranks(np, [&](int) { m1(p % 3, np, [&](auto a) { m1(p / 3, np, [&](auto b) { auto u = mkp<float, row1_type>(d, a); auto t = mkp<float, row1_type>(d, b), t2 = mkp<float, row1_type>(Domain<1>(k), b); fill(u, d, x.data()); fill(t, d, z.data()); t2 = u(e); expect(t2, Domain<1>(k), [&](long i) { return x[f1 + i * s1]; }, "distributed sub-vector"); t(g) = u(e); expect(t, d, [&](long i) { for (long j = 0; j < k; ++j) if (i == f2 + j * s2) return x[f1 + j * s1]; return z[i]; }, "assignment to a distributed sub-vector changes exactly its elements"); }); }); }); }
// @entry c09_loc params=0-9
ENTRY(c09_loc) { int np = 3, p = vsx_param(); length_type n = len("n", 1, 5); Domain<1> d(n); auto x = syms<float>("x", n), z = syms<float>("z", n); ranks(np, [&](int) { map1(p, np, [&](auto a) { auto u = mkp<float, row1_type>(d, a); Vector<float> l(n); fill(u, d, x.data()); ovxx::parallel::assign_local(l, u); for (index_type i = 0; i < n; ++i) CHECK(l.get(i) == x[i], "a distributed view copied to a local one"); for (index_type i = 0; i < n; ++i) l.put(i, z[i]); ovxx::parallel::assign_local(u, l); expect(u, d, [&](long g) { return z[g]; }, "a local view copied to a distributed one"); }); }); }
// @entry c09_user params=0-9
ENTRY(c09_user) { int np = 3, p = vsx_param(); length_type n = len("n", 1, 5); Domain<1> d(n); auto x = syms<float>("x", n), z = syms<float>("z", n); ranks(np, [&](int) { map1(p, np, [&](auto a) { typedef Dense<1, float, row1_type, decltype(a)> B; B b(d, (float *)0, a); Vector<float, B> v(b); auto t = mkp<float, row1_type>(d, Map<Block_dist>(Block_dist(np))); CHECK(!b.admitted(), "a block created on user memory is released"); length_type m = vsip::subblock_domain(v).size(); std::vector<float> mem(m + 2, 7.f); b.rebind(mem.data() + 1); 
  index_type sb = b.map().subblock(); for (index_type i = 0; i < m; ++i) mem[i + 1] = x[vsip::global_from_local_index(v, sb, Index<1>(i))[0]]; b.admit(true); t = v; expect(t, d, [&](long g) { return x[g]; }, "admitted user memory of a distributed block"); fill(t, d, z.data()); v = t; b.release(true); for (index_type i = 0; i < m; ++i) CHECK(mem[i + 1] == z[vsip::global_from_local_index(v, sb, Index<1>(i))[0]], "released user memory of a distributed block"); CHECK((mem[0] == 7.f) & (mem[m + 1] == 7.f), "memory around the user memory is untouched"); }); }); }
