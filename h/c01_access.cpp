// @property C01
// @bounds extents 1..5 (1-D 1..9), every index pair symbolic; value types float, double, int, short, complex<float> (interleaved and split)
#include "c.h"
#include <vsip/complex.hpp>
#include <ovxx/strided.hpp>
using ovxx::Strided;
template <typename T> struct val { static T mk(char const *n) { return T(vsx_int(n, -100, 100)); } };
template <> struct val<float> { static float mk(char const *n) { return vsx_f32(n, -100, 100); } };
template <> struct val<double> { static double mk(char const *n) { return vsx_f64(n, -100, 100); } };
template <typename R> struct val<complex<R> > { static complex<R> mk(char const *n) { R r = val<R>::mk(n); R i = val<R>::mk(n); return complex<R>(r, i); } };
template <typename B> void t1(length_type n)
{
  typedef typename B::value_type T;
  B b(n, T(7));
  CHECK(b.size() == n && b.size(1, 0) == n, "1-D block reports its extent");
  index_type i = vsx_int("i", 0, n - 1), j = vsx_int("j", 0, n - 1), k = vsx_int("k", 0, n - 1);
  T v = val<T>::mk("v"), w = val<T>::mk("w");
  b.put(i, v); b.put(j, w);
  CHECK(b.get(j) == w, "get returns the last value put");
  CHECK(i == j || b.get(i) == v, "put to one element leaves the others alone");
  CHECK(k == i || k == j || b.get(k) == T(7), "an element never written keeps its initial value");
}
template <typename B> void t2(length_type m, length_type n)
{
  typedef typename B::value_type T;
  B b(Domain<2>(m, n), T(7));
  CHECK(b.size() == m * n && b.size(2, 0) == m && b.size(2, 1) == n, "2-D block reports its extents");
  index_type i = vsx_int("i", 0, m - 1), j = vsx_int("j", 0, n - 1), p = vsx_int("p", 0, m - 1), q = vsx_int("q", 0, n - 1);
  index_type r = vsx_int("r", 0, m - 1), s = vsx_int("s", 0, n - 1);
  T v = val<T>::mk("v"), w = val<T>::mk("w");
  b.put(i, j, v); b.put(p, q, w);
  CHECK(b.get(p, q) == w, "get returns the last value put");
  CHECK((i == p && j == q) || b.get(i, j) == v, "put to one element leaves the others alone");
  CHECK((r == i && s == j) || (r == p && s == q) || b.get(r, s) == T(7), "an element never written keeps its initial value");
}
template <typename B> void t3(length_type m, length_type n, length_type o)
{
  typedef typename B::value_type T;
  B b(Domain<3>(m, n, o), T(7));
  CHECK(b.size() == m * n * o && b.size(3, 0) == m && b.size(3, 1) == n && b.size(3, 2) == o, "3-D block reports its extents");
  index_type i = vsx_int("i", 0, m - 1), j = vsx_int("j", 0, n - 1), k = vsx_int("k", 0, o - 1);
  index_type p = vsx_int("p", 0, m - 1), q = vsx_int("q", 0, n - 1), r = vsx_int("r", 0, o - 1);
  T v = val<T>::mk("v"), w = val<T>::mk("w");
  b.put(i, j, k, v); b.put(p, q, r, w);
  CHECK(b.get(p, q, r) == w, "get returns the last value put");
  CHECK((i == p && j == q && k == r) || b.get(i, j, k) == v, "put to one element leaves the others alone");
}
// linear (1-D) access to a 2-D/3-D Dense enumerates the elements in its dimension order
template <typename B> void lin2(length_type m, length_type n, bool row)
{
  typedef typename B::value_type T;
  B b(Domain<2>(m, n), T(0));
  index_type i = vsx_int("i", 0, m - 1), j = vsx_int("j", 0, n - 1);
  T v = val<T>::mk("v"); b.put(i, j, v);
  CHECK(b.get(row ? i * n + j : j * m + i) == v, "linear access follows the dimension order");
}
typedef tuple<1,0,2> C2;
#define S1(T,P,F) Strided<1, T, Layout<1, row1_type, P, F> >
#define S2(T,O,P,F) Strided<2, T, Layout<2, O, P, F> >
#define S3(T,O,P,F) Strided<3, T, Layout<3, O, P, F> >
typedef tuple<0,1,2> R;
typedef tuple<0,2,1> O021; typedef tuple<1,0,2> O102; typedef tuple<1,2,0> O120; typedef tuple<2,0,1> O201; typedef tuple<2,1,0> O210;
// @entry c01_1d params=0-8 heavy=1
ENTRY(c01_1d) {
  vsipl init; length_type n = len("n", 1, 9);
  switch (vsx_param()) {
  case 0: t1<Dense<1, float> >(n); break; case 1: t1<Dense<1, double> >(n); break; case 2: t1<Dense<1, int> >(n); break; case 3: t1<Dense<1, short> >(n); break;
  case 4: t1<Dense<1, complex<float> > >(n); break; case 5: t1<S1(complex<float>, dense, split_complex)>(n); break; case 6: t1<S1(complex<float>, aligned_32, interleaved_complex)>(n); break;
  case 7: t1<S1(float, aligned_16, array)>(n); break; case 8: t1<S1(float, unit_stride, array)>(n); break; } }
// @entry c01_2d params=0-11 heavy=5
ENTRY(c01_2d) {
  vsipl init; length_type m = len("m", 1, 5), n = len("n", 1, 5);
  switch (vsx_param()) {
  case 0: t2<Dense<2, float> >(m, n); break; case 1: t2<Dense<2, float, col2_type> >(m, n); break; case 2: t2<Dense<2, int> >(m, n); break; case 3: t2<Dense<2, complex<float>, col2_type> >(m, n); break;
  case 4: t2<S2(float, R, aligned_16, array)>(m, n); break; case 5: t2<S2(float, C2, aligned_16, array)>(m, n); break;
  case 6: t2<S2(double, R, aligned_8, array)>(m, n); break; case 7: t2<S2(double, C2, aligned_8, array)>(m, n); break;
  case 8: t2<S2(complex<float>, R, dense, split_complex)>(m, n); break; case 9: t2<S2(complex<float>, C2, dense, split_complex)>(m, n); break;
  case 10: t2<S2(complex<float>, R, aligned_16, split_complex)>(m, n); break; case 11: t2<S2(complex<float>, C2, aligned_32, interleaved_complex)>(m, n); break;
  } }
// @entry c01_3d params=0-12 heavy=9
ENTRY(c01_3d) {
  vsipl init; length_type m = len("m", 1, 3), n = len("n", 1, 3), o = len("o", 1, 3);
  switch (vsx_param()) {
  case 0: t3<Dense<3, float, R> >(m, n, o); break; case 1: t3<Dense<3, float, O021> >(m, n, o); break; case 2: t3<Dense<3, float, O102> >(m, n, o); break;
  case 3: t3<Dense<3, float, O120> >(m, n, o); break; case 4: t3<Dense<3, float, O201> >(m, n, o); break; case 5: t3<Dense<3, float, O210> >(m, n, o); break;
  case 6: t3<S3(float, R, aligned_16, array)>(m, n, o); break; case 7: t3<S3(float, O021, aligned_16, array)>(m, n, o); break; case 8: t3<S3(float, O102, aligned_16, array)>(m, n, o); break;
  case 9: t3<S3(float, O120, aligned_16, array)>(m, n, o); break; case 10: t3<S3(float, O201, aligned_16, array)>(m, n, o); break; case 11: t3<S3(float, O210, aligned_16, array)>(m, n, o); break;
  case 12: t3<S3(complex<float>, O120, dense, split_complex)>(m, n, o); break; } }
// @entry c01_linear params=0-1
ENTRY(c01_linear) { vsipl init; length_type m = len("m", 1, 5), n = len("n", 1, 5); if (vsx_param() == 0) lin2<Dense<2, float> >(m, n, true); else lin2<Dense<2, float, col2_type> >(m, n, false); }
