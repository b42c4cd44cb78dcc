// @property C04
// @bounds matrices up to 3x2 and tensors up to 2x2x2 in every dimension order; every element symbolic
#include "sub.h"
#define COMMA ,
typedef tuple<0,1,2> T012; typedef tuple<0,2,1> T021; typedef tuple<1,0,2> T102; typedef tuple<1,2,0> T120; typedef tuple<2,0,1> T201; typedef tuple<2,1,0> T210;
template <typename O, typename A, typename B> void go2(O o, A a, B b) { typedef float T; length_type m = o.size(0), n = o.size(1); T x[3][3], y[3][3]; T s = vsx_f32("s", -50, 50);
  for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) { x[i][j] = vsx_f32("x", -100, 100); y[i][j] = vsx_f32("y", -100, 100); a.put(i, j, x[i][j]); b.put(i, j, y[i][j]); }
#define ALL2(e) for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) CHECK(o.get(i, j) == (e), "matrix expressions act element by element in every dimension order")
  o = a + b; ALL2(x[i][j] + y[i][j]); o = a * b + s; ALL2(x[i][j] * y[i][j] + s); o = s - a; ALL2(s - x[i][j]); o = b; o *= a; ALL2(x[i][j] * y[i][j]); o -= s; o += b; ALL2(x[i][j] * y[i][j] - s + y[i][j]); o = s; ALL2(s); o = max(a, b); ALL2(x[i][j] > y[i][j] ? x[i][j] : y[i][j]); o = a; ALL2(x[i][j]); o = ma(a, s, b); ALL2(x[i][j] * s + y[i][j]);
  for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) CHECK((a.get(i, j) == x[i][j]) & (b.get(i, j) == y[i][j]), "operands are left unchanged"); }
// @entry c04_matrix params=0-7
ENTRY(c04_matrix) { vsipl init; length_type m = len("m", 1, 3), n = len("n", 1, 2); Matrix<float, DR> r(m, n), r2(m, n), rt(n, m); Matrix<float, DC> c(m, n), c2(m, n), ct(n, m); Matrix<float, SR> sr(m, n); Matrix<float, SC> sc(m, n), sct(n, m); Matrix<float> big(7, 5);
  switch (vsx_param()) { case 0: go2(r, r2, c); break; case 1: go2(c, r, c2); break; case 2: go2(sr, sc, r); break; case 3: go2(sc, c, sr); break; case 4: go2(r, rt.transpose(), ct.transpose()); break; case 5: go2(rt.transpose(), c, sct.transpose()); break; case 6: go2(big(Domain<2>(Domain<1>(0, 2, m), Domain<1>(4, -3, n))), r, c); break; case 7: go2(c, big(Domain<2>(Domain<1>(6, -2, m), Domain<1>(1, 2, n))), sct.transpose()); break; } }
template <typename O, typename A, typename B> void go3(O o, A a, B b) { typedef float T; length_type l = o.size(0), m = o.size(1), n = o.size(2); T x[2][2][2], y[2][2][2]; T s = vsx_f32("s", -50, 50);
  for (index_type i = 0; i < l; ++i) for (index_type j = 0; j < m; ++j) for (index_type k = 0; k < n; ++k) { x[i][j][k] = vsx_f32("x", -100, 100); y[i][j][k] = vsx_f32("y", -100, 100); a.put(i, j, k, x[i][j][k]); b.put(i, j, k, y[i][j][k]); }
#define ALL3(e) for (index_type i = 0; i < l; ++i) for (index_type j = 0; j < m; ++j) for (index_type k = 0; k < n; ++k) CHECK(o.get(i, j, k) == (e), "tensor expressions act element by element in every dimension order")
  o = a - b; ALL3(x[i][j][k] - y[i][j][k]); o = a * b + a; ALL3(x[i][j][k] * y[i][j][k] + x[i][j][k]); o = s * a; ALL3(s * x[i][j][k]); o = b; ALL3(y[i][j][k]); o += a; o *= s; ALL3((x[i][j][k] + y[i][j][k]) * s); o -= b; ALL3((x[i][j][k] + y[i][j][k]) * s - y[i][j][k]); o = s; ALL3(s); }
// @entry c04_tensor params=0-6
ENTRY(c04_tensor) { vsipl init; length_type l = len("l", 1, 2), m = len("m", 1, 2), n = len("n", 1, 2); Tensor<float, Dense<3, float, T012> > a(l, m, n); Tensor<float, Dense<3, float, T021> > b(l, m, n); Tensor<float, Dense<3, float, T102> > c(l, m, n); Tensor<float, Dense<3, float, T120> > d(l, m, n); Tensor<float, Dense<3, float, T201> > e(l, m, n); Tensor<float, Dense<3, float, T210> > f(l, m, n); Tensor<float, Dense<3, float> > t(n, l, m);
  switch (vsx_param()) { case 0: go3(a, b, c); break; case 1: go3(b, d, e); break; case 2: go3(c, f, a); break; case 3: go3(d, e, b); break; case 4: go3(e, a, d); break; case 5: go3(f, c, b); break; case 6: go3(a, t.transpose<1, 2, 0>(), f); break; } }
// element references
// @entry c04_proxy params=0-3
ENTRY(c04_proxy) { vsipl init; length_type m = len("m", 1, 3), n = len("n", 1, 2); index_type i = vsx_int("i", 0, m - 1), j = vsx_int("j", 0, n - 1), p = vsx_int("p", 0, m - 1), q = vsx_int("q", 0, n - 1); float x = vsx_f32("x", -50, 50), y = vsx_f32("y", -50, 50); bool h = (p == i) & (q == j);
#define PX(M) { M; for (index_type a = 0; a < m; ++a) for (index_type b = 0; b < n; ++b) v.put(a, b, 10 * a + b); v(i, j) = x; v(i, j) += y; v(i, j) *= 2.f; v(i, j) -= x; CHECK(v.get(p, q) == (h ? (x + y) * 2 - x : 10.f * p + q), "an element reference denotes exactly its element"); float z = v(i, j); CHECK(z == (x + y) * 2 - x, "an element reference reads its element"); }
  switch (vsx_param()) { case 0: PX(Matrix<float> v(m, n)) break; case 1: PX(Matrix<float COMMA DC> v(m, n)) break; case 2: PX(Matrix<float> w(n, m); auto v = w.transpose()) break;
  case 3: { typedef complex<float> cf; Matrix<cf, SPR> v(m, n); for (index_type a = 0; a < m; ++a) for (index_type b = 0; b < n; ++b) v.put(a, b, cf(10 * a + b, 7)); v(i, j) = cf(x, y); v(i, j) += cf(y, x); CHECK(v.get(p, q) == (h ? cf(x + y, x + y) : cf(10.f * p + q, 7)), "an element reference of a split block denotes exactly its element"); cf z = v(i, j); CHECK(z == cf(x + y, x + y), "an element reference of a split block reads its element"); } break; } }
