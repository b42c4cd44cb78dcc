// @property C14
// @stub blas.c
// @bounds vector products: up to 4 elements (dot), 3 by 3 (outer, kron), strides -2 to 2, columns of a matrix
#include "mv.h"
template <typename P, typename A, typename B> void dots() { typedef typename A::T TA; typedef typename B::T TB; length_type n = len("n", 1, 4); long s = pick("s", -2, 2), t = pick("t", -2, 2); vsx_assume((s != 0) & (t != 0)); std::vector<TA> a = syv<TA>("a", n); std::vector<TB> b = syv<TB>("b", n); A x(n, s); B y(n, t); put1(x.v, a); put1(y.v, b);
  P r = P(); for (length_type i = 0; i < n; ++i) r += P(a[i]) * P(b[i]); CHECK(dot(x.v, y.v) == r, "dot sums the products of corresponding elements"); same1(x.v, a, "dot leaves its operands unchanged"); same1(y.v, b, "dot leaves its operands unchanged"); }
template <typename A, typename B> void cdots() { typedef typename A::T T; length_type n = len("n", 1, 4); long s = pick("s", -2, 2), t = pick("t", -2, 2); vsx_assume((s != 0) & (t != 0)); std::vector<T> a = syv<T>("a", n), b = syv<T>("b", n); A x(n, s); B y(n, t); put1(x.v, a); put1(y.v, b);
  T r = T(), q = T(); for (length_type i = 0; i < n; ++i) { r += a[i] * conj(b[i]); q += conj(a[i]) * b[i]; } CHECK(cvjdot(x.v, y.v) == r, "cvjdot conjugates its second operand"); CHECK(dot(conj(x.v), y.v) == q, "dot of a conjugated operand"); CHECK(dot(x.v, conj(y.v)) == r, "dot of a conjugated operand"); }
// @entry c14_dot params=0-13
ENTRY(c14_dot) { vsipl init; switch (vsx_param()) { case 0: dots<float, sv<D1>, sv<D1> >(); break; case 1: dots<float, cv<float>, sv<D1> >(); break; case 2: dots<double, sv<DD1>, cv<double> >(); break; case 3: dots<z, sv<Z1>, sv<Z1> >(); break; case 4: dots<w, sv<W1>, sv<W1> >(); break; case 5: dots<z, sv<SP1>, sv<Z1> >(); break; case 6: dots<z, sv<SP1>, sv<SP1> >(); break; case 7: dots<z, sv<D1>, sv<Z1> >(); break; case 8: dots<z, sv<SP1>, cv<float> >(); break; case 9: dots<double, sv<D1>, sv<DD1> >(); break;
  case 10: cdots<sv<Z1>, cv<z> >(); break; case 11: cdots<cv<w>, sv<W1> >(); break; case 12: cdots<sv<SP1>, sv<Z1> >(); break; case 13: cdots<dv<Z1>, sv<SP1> >(); break; } }
// the result of a dot product of double precision keeps double precision
// @entry c14_dprec params=0-2
ENTRY(c14_dprec) { vsipl init; long k = vsx_int("k", 0, 1000); double e = 16777217.0 + (double)k; Vector<w> x(2, w(1, 0)), y(2, w(e, -e)); switch (vsx_param()) { case 0: CHECK(dot(x, y) == w(2 * e, -2 * e), "double precision dot"); break; case 1: CHECK(cvjdot(x, y) == w(2 * e, 2 * e), "double precision cvjdot"); break; case 2: { Vector<double> a(2, 1.0), b(2, e); CHECK(dot(a, b) == 2 * e, "double precision dot"); break; } } }
template <typename T, typename A, typename B> void outers() { typedef typename B::T TB; typedef typename A::T TA; length_type m = len("m", 1, 3), n = len("n", 1, 3); long s = pick("s", -1, 2), t = pick("t", -1, 2); vsx_assume((s != 0) & (t != 0)); TA al = sy<TA>::mk("al"); std::vector<TA> a = syv<TA>("a", m); std::vector<TB> b = syv<TB>("b", n); A x(m, s); B y(n, t); put1(x.v, a); put1(y.v, b);
  Matrix<T> r(m, n); r = outer(al, x.v, y.v); for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) CHECK(r.get(i, j) == T(al) * T(a[i]) * T(cjg<TB>::f(b[j])), "outer multiplies every pair of elements"); same1(x.v, a, "outer leaves its operands unchanged"); same1(y.v, b, "outer leaves its operands unchanged");
  auto q = outer(al, x.v, y.v); CHECK((q.size(0) == m) & (q.size(1) == n), "outer has the operands' extents"); }
// @entry c14_outer params=0-7
ENTRY(c14_outer) { vsipl init; switch (vsx_param()) { case 0: outers<float, sv<D1>, sv<D1> >(); break; case 1: outers<float, cv<float>, dv<D1> >(); break; case 2: outers<double, dv<DD1>, sv<DD1> >(); break; case 3: outers<z, sv<Z1>, sv<Z1> >(); break; case 4: outers<w, dv<W1>, dv<W1> >(); break; case 5: outers<z, sv<SP1>, sv<Z1> >(); break; case 6: outers<z, sv<Z1>, sv<SP1> >(); break; case 7: outers<z, dv<SP1>, dv<SP1> >(); break; } }
template <typename T, typename S, typename A, typename B> void kronv() { typedef typename A::T TA; length_type m = len("m", 1, 3), n = len("n", 1, 3); long s = pick("s", -1, 2); vsx_assume(s != 0); S al = sy<S>::mk("al"); std::vector<TA> a = syv<TA>("a", m), b = syv<TA>("b", n); A x(m, s); B y(n, 1); put1(x.v, a); put1(y.v, b); typedef Vector<TA, typename std::remove_reference<decltype(x.v.block())>::type> V1; typedef Vector<TA, typename std::remove_reference<decltype(y.v.block())>::type> V2;
  auto r = vsip::impl::impl_kron(al, x.v, y.v); CHECK((r.size(0) == n) & (r.size(1) == m), "kron has the product extents"); for (index_type i = 0; i < n; ++i) for (index_type j = 0; j < m; ++j) CHECK(r.get(i, j) == T(al) * T(b[i]) * T(a[j]), "kron of vectors multiplies every pair of elements"); }
template <typename T, typename A, typename B, typename S> void kronm() { typedef typename A::T TA; length_type m = len("m", 1, 2), n = len("n", 1, 2), p = len("p", 1, 2), q = len("q", 1, 2); long r_, c_; shape((int)pick("sh", 0, SHAPES - 1), r_, c_); S al = sy<S>::mk("al"); std::vector<TA> a = syv<TA>("a", m * n), b = syv<TA>("b", p * q); A x(m, n, r_, c_); B y(p, q, c_, r_); put2(x.v, a); put2(y.v, b);
  auto r = vsip::impl::impl_kron(al, x.v, y.v); CHECK((r.size(0) == m * p) & (r.size(1) == n * q), "kron has the product extents"); for (index_type i = 0; i < m; ++i) for (index_type k = 0; k < n; ++k) for (index_type j = 0; j < p; ++j) for (index_type l = 0; l < q; ++l) CHECK(r.get(i * p + j, k * q + l) == T(al) * T(a[i * n + k]) * T(b[j * q + l]), "kron of matrices places every scaled copy"); }
// @entry c14_kron params=0-4
ENTRY(c14_kron) { vsipl init; switch (vsx_param()) { case 0: kronv<float, float, sv<D1>, dv<D1> >(); break; case 1: kronv<z, z, sv<SP1>, cv<z> >(); break; case 2: kronm<float, wm<MR>, wm<MC>, float>(); break; case 3: kronm<z, wm<ZC>, wm<ZR>, z>(); break; case 4: kronm<double, wm<DMR>, wm<DMR>, double>(); break; } }
template <typename A, typename B> void cums1() { typedef typename A::T T; length_type n = len("n", 1, 4); long s = pick("s", -2, 2), t = pick("t", -2, 2); vsx_assume((s != 0) & (t != 0)); std::vector<T> a = syv<T>("a", n); A x(n, s); B y(n, t); put1(x.v, a); vsip::impl::cumsum<0>(x.v, y.v); T k = T(); for (index_type i = 0; i < n; ++i) { k += a[i]; CHECK(y.v.get(i) == k, "cumsum is the running sum"); } y.outside("cumsum writes nothing else"); same1(x.v, a, "cumsum leaves its operand unchanged"); vsip::impl::cumsum<0>(x.v, x.v); k = T(); for (index_type i = 0; i < n; ++i) { k += a[i]; CHECK(x.v.get(i) == k, "cumsum in place is the running sum"); } }
template <typename A, typename B> void cums2() { typedef typename A::T T; length_type m = len("m", 1, 3), n = len("n", 1, 3); long r_, c_; shape((int)pick("sh", 0, SHAPES - 1), r_, c_); std::vector<T> a = syv<T>("a", m * n); A x(m, n, r_, c_); B y(m, n, c_, r_); put2(x.v, a);
  vsip::impl::cumsum<0>(x.v, y.v); for (index_type i = 0; i < m; ++i) { T k = T(); for (index_type j = 0; j < n; ++j) { k += a[i * n + j]; CHECK(y.v.get(i, j) == k, "cumsum<0> runs along each row"); } } vsip::impl::cumsum<1>(x.v, y.v); for (index_type j = 0; j < n; ++j) { T k = T(); for (index_type i = 0; i < m; ++i) { k += a[i * n + j]; CHECK(y.v.get(i, j) == k, "cumsum<1> runs along each column"); } } y.outside("cumsum writes nothing else"); same2(x.v, a, "cumsum leaves its operand unchanged"); }
// @entry c14_cumsum params=0-4
ENTRY(c14_cumsum) { vsipl init; switch (vsx_param()) { case 0: cums1<sv<D1>, sv<D1> >(); break; case 1: cums1<cv<z>, sv<SP1> >(); break; case 2: cums2<wm<MR>, wm<MC> >(); break; case 3: cums2<wm<ZC>, wm<ZR> >(); break; case 4: cums1<sv<Dense<1, int> >, sv<Dense<1, int> > >(); break; } }
