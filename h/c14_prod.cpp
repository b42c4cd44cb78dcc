// @property C14
// @stub blas.c
// @bounds matrix products: up to 3 by 3 by 3 elements (prod3, prod4: 3 and 4), every dimension order, windows with strides -2 to 2 in one operand at a time or all of them
#include "mv.h"
#include <type_traits>
struct win { long r[3], c[3]; win() { int which = (int)pick("which", 0, 3), sh = (int)pick("sh", 0, SHAPES - 1); vsx_assume((which < 3) | (sh > 0)); for (int k = 0; k < 3; ++k) if (which == k || which == 3) shape(sh, r[k], c[k]); else r[k] = c[k] = 1; } };
template <typename T, typename A, typename B, typename C> void mm(int op) { typedef typename A::T TA; typedef typename B::T TB; length_type m = len("m", 1, 3), k = len("k", 1, 2), n = len("n", 1, 3); win s; std::vector<TA> a = syv<TA>("a", m * k); std::vector<TB> b = syv<TB>("b", k * n); A x(m, k, s.r[0], s.c[0]); put2(x.v, a); C r(m, n, s.r[2], s.c[2]); B y(op < 1 ? k : n, op < 1 ? n : k, s.r[1], s.c[1]); if (op < 1) put2(y.v, b); else for (index_type i = 0; i < k; ++i) for (index_type j = 0; j < n; ++j) y.v.put(j, i, b[i * n + j]);
  if (op == 0) r.v = prod(x.v, y.v); else r.v = prodt(x.v, y.v);
  for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) { T e = T(); for (index_type l = 0; l < k; ++l) e += T(a[i * k + l]) * T(b[l * n + j]); CHECK(r.v.get(i, j) == e, "matrix product"); } r.outside("a product writes nothing outside its destination"); same2(x.v, a, "a product leaves its operands unchanged"); }
template <typename A, typename B, typename C> void mmc(int op) { typedef typename A::T T; length_type m = len("m", 1, 3), k = len("k", 1, 2), n = len("n", 1, 3); win s; std::vector<T> a = syv<T>("a", m * k), b = syv<T>("b", k * n); A x(m, k, s.r[0], s.c[0]); put2(x.v, a); C r(m, n, s.r[2], s.c[2]); B y(op == 0 ? k : n, op == 0 ? n : k, s.r[1], s.c[1]); if (op == 0) put2(y.v, b); else for (index_type i = 0; i < k; ++i) for (index_type j = 0; j < n; ++j) y.v.put(j, i, b[i * n + j]);
  if (op == 0) r.v = prodj(x.v, y.v); else if (op == 1) r.v = prodh(x.v, y.v); else r.v = prod(x.v, herm(y.v));
  for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) { T e = T(); for (index_type l = 0; l < k; ++l) e += a[i * k + l] * conj(b[l * n + j]); CHECK(r.v.get(i, j) == e, "conjugated matrix product"); } r.outside("a product writes nothing outside its destination"); }
template <int K> struct tl {};
// @entry c14_mm params=0-10
ENTRY(c14_mm) { vsipl init; switch (vsx_param()) { case 0: mm<float, wm<MR>, wm<MR>, wm<MR> >(0); break; case 1: mm<float, wm<MR>, wm<MC>, wm<MR> >(0); break; case 2: mm<float, wm<MC>, wm<MR>, wm<MR> >(0); break; case 3: mm<float, wm<MC>, wm<MC>, wm<MC> >(0); break; case 4: mm<double, wm<DMR>, wm<DMC>, wm<DMC> >(0); break; case 5: mm<z, wm<ZC>, wm<ZR>, wm<ZC> >(0); break; case 6: mm<w, wm<WR>, wm<WR>, wm<WC> >(0); break; case 7: mm<z, wm<SPR>, wm<ZR>, wm<ZR> >(0); break; case 8: mm<z, wm<ZR>, wm<ZC>, wm<SPC> >(0); break; case 9: mm<z, wm<MR>, wm<ZC>, wm<ZR> >(0); break; case 10: mm<float, wm<MR>, wm<MR>, wm<SC> >(0); break; } }
// @entry c14_mmt params=0-6
ENTRY(c14_mmt) { vsipl init; switch (vsx_param()) { case 0: mm<float, wm<MR>, wm<MR>, wm<MR> >(1); break; case 1: mm<double, wm<DMC>, wm<DMR>, wm<DMC> >(1); break; case 2: mm<z, wm<ZR>, wm<ZC>, wm<ZR> >(1); break; case 3: mmc<wm<ZR>, wm<ZC>, wm<ZR> >(0); break; case 4: mmc<wm<ZC>, wm<ZR>, wm<ZC> >(1); break; case 5: mmc<wm<ZR>, wm<ZR>, wm<ZR> >(2); break; case 6: mmc<wm<SPR>, wm<ZC>, wm<ZR> >(1); break; } }
// matrix times vector and vector times matrix
template <typename T, typename A, typename V, typename R> void mv(int op) { typedef typename A::T TA; typedef typename V::T TV; length_type m = len("m", 1, 3), n = len("n", 1, 3); long r_, c_; shape((int)pick("sh", 0, SHAPES - 1), r_, c_); long s = pick("s", -2, 2), t = pick("t", -2, 2); vsx_assume((s != 0) & (t != 0)); std::vector<TA> a = syv<TA>("a", m * n); std::vector<TV> b = syv<TV>("b", op ? m : n); A x(m, n, r_, c_); put2(x.v, a); V y(op ? m : n, s); put1(y.v, b); R r(op ? n : m, t);
  if (op) r.v = prod(y.v, x.v); else r.v = prod(x.v, y.v);
  for (index_type i = 0; i < (op ? n : m); ++i) { T e = T(); for (index_type l = 0; l < (op ? m : n); ++l) e += T(op ? a[l * n + i] : a[i * n + l]) * T(b[l]); CHECK(r.v.get(i) == e, "product of a matrix and a vector"); } r.outside("a product writes nothing outside its destination"); same2(x.v, a, "a product leaves its operands unchanged"); same1(y.v, b, "a product leaves its operands unchanged"); }
// @entry c14_mv params=0-8
ENTRY(c14_mv) { vsipl init; switch (vsx_param()) { case 0: mv<float, wm<MR>, sv<D1>, sv<D1> >(0); break; case 1: mv<float, wm<MC>, sv<D1>, sv<D1> >(0); break; case 2: mv<double, wm<DMR>, cv<double>, sv<DD1> >(0); break; case 3: mv<z, wm<ZC>, sv<Z1>, sv<Z1> >(0); break; case 4: mv<w, wm<WR>, dv<W1>, cv<w> >(0); break; case 5: mv<z, wm<SPR>, sv<Z1>, sv<Z1> >(0); break; case 6: mv<z, wm<ZR>, sv<SP1>, sv<SP1> >(0); break; case 7: mv<z, wm<ZC>, dv<Z1>, sv<SP1> >(0); break; case 8: mv<z, wm<MC>, sv<Z1>, dv<Z1> >(0); break; } }
// @entry c14_vm params=0-8
ENTRY(c14_vm) { vsipl init; switch (vsx_param()) { case 0: mv<float, wm<MR>, sv<D1>, sv<D1> >(1); break; case 1: mv<float, wm<MC>, sv<D1>, sv<D1> >(1); break; case 2: mv<double, wm<DMR>, cv<double>, sv<DD1> >(1); break; case 3: mv<z, wm<ZC>, sv<Z1>, sv<Z1> >(1); break; case 4: mv<w, wm<WR>, dv<W1>, cv<w> >(1); break; case 5: mv<z, wm<SPR>, sv<Z1>, sv<Z1> >(1); break; case 6: mv<z, wm<ZR>, sv<SP1>, sv<SP1> >(1); break; case 7: mv<z, wm<ZC>, dv<Z1>, sv<SP1> >(1); break; case 8: mv<z, wm<MR>, sv<Z1>, dv<Z1> >(1); break; } }
template <typename T, typename A, typename B, typename C, int K> void p34() { win s; std::vector<T> a = syv<T>("a", K * K), b = syv<T>("b", K * 2); A x(K, K, s.r[0], s.c[0]); put2(x.v, a); B y(K, 2, s.r[1], s.c[1]); put2(y.v, b); C r(K, 2, s.r[2], s.c[2]); if (K == 3) r.v = prod3(x.v, y.v); else r.v = prod4(x.v, y.v);
  for (index_type i = 0; i < K; ++i) for (index_type j = 0; j < 2; ++j) { T e = T(); for (index_type l = 0; l < K; ++l) e += a[i * K + l] * b[l * 2 + j]; CHECK(r.v.get(i, j) == e, "3x3 or 4x4 matrix product"); } r.outside("a product writes nothing outside its destination");
  Vector<T> q(K); if (K == 3) q = prod3(x.v, y.v.col(1)); else q = prod4(x.v, y.v.col(1)); for (index_type i = 0; i < K; ++i) { T e = T(); for (index_type l = 0; l < K; ++l) e += a[i * K + l] * b[l * 2 + 1]; CHECK(q.get(i) == e, "3x3 or 4x4 product of a matrix and a vector"); } }
// @entry c14_p34 params=0-3
ENTRY(c14_p34) { vsipl init; switch (vsx_param()) { case 0: p34<float, wm<MR>, wm<MC>, wm<MR>, 3>(); break; case 1: p34<z, wm<ZC>, wm<ZR>, wm<ZC>, 3>(); break; case 2: p34<double, wm<DMR>, wm<DMR>, wm<DMC>, 4>(); break; case 3: p34<z, wm<SPR>, wm<ZC>, wm<ZR>, 4>(); break; } }
// products of expressions and inside expressions
// @entry c14_px params=0-1
template <typename T> struct s3 { static T mk(char const *n) { return T(vsx_f32(n, -8, 8)); } }; template <typename R> struct s3<complex<R> > { static complex<R> mk(char const *n) { R a = vsx_f32(n, -8, 8), b = vsx_f32(n, -8, 8); return complex<R>(a, b); } };
template <typename T> std::vector<T> sym3(char const *n, length_type k) { std::vector<T> r; for (length_type i = 0; i < k; ++i) r.push_back(s3<T>::mk(n)); return r; }
template <typename T, typename B> void px() { length_type m = len("m", 1, 2), k = len("k", 1, 3), n = len("n", 1, 2); std::vector<T> a = sym3<T>("a", m * k), b = sym3<T>("b", k * n), c = sym3<T>("c", m * n), d = sym3<T>("d", k); Matrix<T, B> x(m, k), y(k, n), q(m, n), r(m, n, T(3)); put2(x, a); put2(y, b); put2(q, c); Vector<T> e(k), f(m); put1(e, d); auto pe = [&](index_type i, index_type j) { T s = T(); for (index_type l = 0; l < k; ++l) s += a[i * k + l] * b[l * n + j]; return s; };
  r = prod(x, y) + q; for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) CHECK(r.get(i, j) == pe(i, j) + c[i * n + j], "product inside an expression"); r = T(1); r += prod(x, y); for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) CHECK(r.get(i, j) == pe(i, j) + T(1), "product in a compound assignment"); r = prod(x + x, y - T(1)); for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) { T s = T(); for (index_type l = 0; l < k; ++l) s += (a[i * k + l] + a[i * k + l]) * (b[l * n + j] - T(1)); CHECK(r.get(i, j) == s, "product of expressions"); }
  r = prod(x, y) * prod(x, y); for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) CHECK(r.get(i, j) == pe(i, j) * pe(i, j), "two products in an expression"); f = prod(x, e * T(2)); for (index_type i = 0; i < m; ++i) { T s = T(); for (index_type l = 0; l < k; ++l) s += a[i * k + l] * d[l] * T(2); CHECK(f.get(i) == s, "matrix times vector expression"); } }
ENTRY(c14_px) { vsipl init; if (vsx_param()) px<z, ZC>(); else px<float, MR>(); }
