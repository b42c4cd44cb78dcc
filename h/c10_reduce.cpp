// @property C10
// @bounds vectors of 1-4 elements (plus 4095-8193 elements with 3 symbolic ones for the blocked single-precision summation), matrices up to 3x2, tensors up to 2x2x2 in every dimension order, strided and reversed subviews, expressions; every element symbolic
#include "sub.h"
#define COMMA_ ,
typedef complex<float> cf;
typedef Strided<1, cf, Layout<1, row1_type, dense, split_complex> > SP1;
typedef tuple<0,1,2> T012; typedef tuple<0,2,1> T021; typedef tuple<1,0,2> T102; typedef tuple<1,2,0> T120; typedef tuple<2,0,1> T201; typedef tuple<2,1,0> T210;
template <typename T> T mul_(T a, T b) { return a * b; }
inline cf mul_(cf a, cf b) { return cf(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
template <typename T> T sq_(T a) { return a * a; }
inline float sq_(cf a) { return a.real() * a.real() + a.imag() * a.imag(); }
template <typename T> struct el : sy<T> {}; template <> struct el<int> { static int mk(char const *n) { return vsx_int(n, -5, 5); } };
// ---- sums; x: the elements in any order
template <typename V, typename T> void sums(V v, std::vector<T> const &x) {
  T s = T(), q = T(); typedef decltype(sq_(T())) R; R m = R(); long n = x.size();
  for (long i = 0; i < n; ++i) { s += x[i]; q += mul_(x[i], x[i]); m += sq_(x[i]); }
  CHECK(sumval(v) == s, "sumval is the sum of all elements"); CHECK(sumsqval(v) == q, "sumsqval is the sum of the squares of all elements");
  CHECK(meansqval(v) == R(m / length_type(n)), "meansqval is the mean of the squared magnitudes of all elements"); }
template <typename V, typename T> void mean(V v, std::vector<T> const &x) { T s = T(); for (unsigned long i = 0; i < x.size(); ++i) s += x[i]; CHECK(meanval(v) == s / T(x.size()), "meanval is the sum divided by the number of elements"); }
inline void mean(int, std::vector<cf> const &) {}
template <typename V, typename T> void fill(V v, std::vector<T> &x) { for (index_type i = 0; i < v.size(); ++i) { x.push_back(el<T>::mk("x")); v.put(i, x.back()); } }
template <typename V, typename T> void fill2(V v, std::vector<T> &x) { for (index_type i = 0; i < v.size(0); ++i) for (index_type j = 0; j < v.size(1); ++j) { x.push_back(el<T>::mk("x")); v.put(i, j, x.back()); } }
template <typename V, typename T> void fill3(V v, std::vector<T> &x) { for (index_type i = 0; i < v.size(0); ++i) for (index_type j = 0; j < v.size(1); ++j) for (index_type k = 0; k < v.size(2); ++k) { x.push_back(el<T>::mk("x")); v.put(i, j, k, x.back()); } }
#define S1(T, E) { E; std::vector<T> x; fill(v, x); sums(v, x); mean(v, x); }
#define S2(T, E) { E; std::vector<T> x; fill2(v, x); sums(v, x); mean(v, x); }
#define S3(T, O) { Tensor<T, Dense<3, T, O> > v(l, m, n); std::vector<T> x; fill3(v, x); sums(v, x); mean(v, x); }
// @entry c10_sum1 params=0-6
ENTRY(c10_sum1) { vsipl init; length_type n = len("n", 1, 4); switch (vsx_param()) {
  case 0: S1(float, Vector<float> v(n)) break; case 1: S1(int, Vector<int> v(n)) break; case 2: S1(double, Vector<double> w(9); auto v = w(Domain<1>(0, 2, n))) break; case 3: S1(float, Vector<float> w(9); auto v = w(Domain<1>(8, -2, n))) break;
  case 4: { Vector<cf> v(n); std::vector<cf> x; fill(v, x); sums(v, x); } break; case 5: { Vector<cf, SP1> v(n); std::vector<cf> x; fill(v, x); sums(v, x); sums(v * cf(0, 1), ([&] { auto y = x; for (auto &e : y) e = cf(-e.imag(), e.real()); return y; })()); } break;
  case 6: { Vector<float> v(n), u(n); std::vector<float> x, y; fill(v, x); fill(u, y); for (index_type i = 0; i < n; ++i) x[i] = x[i] - 2 * y[i]; sums(v - 2.f * u, x); mean(v - 2.f * u, x); } break; } }
// @entry c10_sum2 params=0-6
ENTRY(c10_sum2) { vsipl init; length_type m = len("m", 1, 3), n = len("n", 1, 2); switch (vsx_param()) { case 0: S2(float, Matrix<float> v(m COMMA_ n)) break; case 1: S2(float, Matrix<float COMMA_ DC> v(m COMMA_ n)) break; case 2: S2(float, Matrix<float COMMA_ SC> v(m COMMA_ n)) break;
  case 3: S2(double, Matrix<double> w(n COMMA_ m); auto v = w.transpose()) break; case 4: S2(int, Matrix<int> w(7 COMMA_ 5); auto v = w(Domain<2>(Domain<1>(6, -2, m), Domain<1>(0, 3, n)))) break; case 5: { Matrix<cf, SPC> v(m, n); std::vector<cf> x; fill2(v, x); sums(v, x); } break;
  case 6: { Matrix<float> v(m, n); Matrix<float, DC> u(m, n); std::vector<float> x, y; fill2(v, x); fill2(u, y); for (index_type i = 0; i < m * n; ++i) x[i] *= y[i]; CHECK(sumval(v * u) == ([&] { float s = 0; for (float e : x) s += e; return s; })(), "sumval of an expression is the sum of its elements"); } break; } }
// @entry c10_sum3 params=0-5
ENTRY(c10_sum3) { vsipl init; length_type l = len("l", 1, 2), m = len("m", 1, 2), n = len("n", 1, 2); switch (vsx_param()) { case 0: S3(float, T012) break; case 1: S3(float, T021) break; case 2: S3(float, T102) break; case 3: S3(float, T120) break; case 4: S3(int, T201) break; case 5: S3(double, T210) break; } }
// blocked summation of long single-precision vectors
template <typename V, typename T> void longsum(V v) { length_type n = v.size(); T z = T(1); v = z; index_type p[3] = { 0, n / 2, n - 1 }; T s = T(), q = T(); float m = 0; for (index_type i = 0; i < n; ++i) { s += z; q += mul_(z, z); m += 1; }
  for (int i = 0; i < 3; ++i) { T y = sy<T>::mk("y"); v.put(p[i], y); s += y - z; q += mul_(y, y) - z; m += sq_(y) - 1; }
  CHECK(sumval(v) == s, "sumval of a long vector is the sum of all elements"); CHECK(sumsqval(v) == q, "sumsqval of a long vector is the sum of the squares of all elements"); CHECK(meansqval(v) == m / float(n), "meansqval of a long vector is the mean of the squared magnitudes"); }
// @entry c10_long params=0-11
ENTRY(c10_long) { vsipl init; int p = vsx_param(); static length_type const N[] = { 4095, 4096, 4097, 8192, 8193, 4099 }; length_type n = N[p % 6];
  if (p < 6) { Vector<float> v(n); longsum<Vector<float>, float>(v); } else if (p < 8) { Vector<cf> v(n); longsum<Vector<cf>, cf>(v); } else if (p == 8) { Vector<cf, SP1> v(n); longsum<Vector<cf, SP1>, cf>(v); } else if (p == 9) { Vector<float> w(2 * n + 1); w = 7; auto v = w(Domain<1>(1, 2, n)); longsum<decltype(v), float>(v); } else if (p == 10) { Vector<float> w(n); auto v = w(Domain<1>(n - 1, -1, n)); longsum<decltype(v), float>(v); } else { Matrix<float> w(n, 2); w = 7; auto v = w.col(1); longsum<decltype(v), float>(v); } }
// ---- truth reductions
template <typename T, typename V> void truth(V v, std::vector<T> const &x) { T a = T(~T()), o = T(); long s = 0; for (T e : x) { a = a & e; o = o | e; } (void)s; CHECK(alltrue(v) == a, "alltrue is the conjunction of all elements"); CHECK(anytrue(v) == o, "anytrue is the disjunction of all elements"); }
template <typename V> void truthb(V v, std::vector<int> const &x) { int a = 1, o = 0; length_type s = 0; for (int e : x) { a &= e; o |= e; s += e; } CHECK(alltrue(v) == (a != 0), "alltrue is the conjunction of all elements"); CHECK(anytrue(v) == (o != 0), "anytrue is the disjunction of all elements"); CHECK(sumval(v) == s, "sumval of a boolean view counts the true elements"); }
// @entry c10_truth params=0-5
ENTRY(c10_truth) { vsipl init; length_type m = len("m", 1, 3), n = len("n", 1, 2); switch (vsx_param()) {
  case 0: { Vector<bool> v(m); std::vector<int> x; for (index_type i = 0; i < m; ++i) { int b = vsx_int("b", 0, 1); x.push_back(b); v.put(i, b != 0); } truthb(v, x); } break;
  case 1: { Matrix<bool> v(m, n); std::vector<int> x; for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) { int b = vsx_int("b", 0, 1); x.push_back(b); v.put(i, j, b != 0); } truthb(v, x); } break;
  case 2: { Matrix<bool, Dense<2, bool, col2_type> > v(m, n); std::vector<int> x; for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) { int b = vsx_int("b", 0, 1); x.push_back(b); v.put(i, j, b != 0); } truthb(v, x); } break;
  case 3: { Vector<int> v(m); std::vector<int> x; for (index_type i = 0; i < m; ++i) { x.push_back(vsx_int("x", -1000, 1000)); v.put(i, x.back()); } truth<int>(v, x); } break;
  case 4: { Matrix<int> v(m, n); std::vector<int> x; for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) { x.push_back(vsx_int("x", -3, 3)); v.put(i, j, x.back()); } truth<int>(v, x); } break;
  case 5: { length_type l = len("l", 1, 2); Tensor<int, Dense<3, int, T120> > v(l, 2, n); std::vector<int> x; for (index_type h = 0; h < l; ++h) for (index_type i = 0; i < 2; ++i) for (index_type j = 0; j < n; ++j) { x.push_back(vsx_int("x", -2, 1)); v.put(h, i, j, x.back()); } truth<int>(v, x); } break; } }
// ---- extrema with index
template <typename T> T keyv(T a) { return a; }
template <typename T> T keym(T a) { return a < 0 ? -a : a; }
inline float keym(cf a) { return mag(a); }
template <typename T, typename F, typename I> void ext1(F f, std::vector<T> const &x, T got, I at, bool mx) { T b = x[0]; for (T e : x) b = mx ? (e > b ? e : b) : (e < b ? e : b); (void)f; CHECK(got == b, "the value of an index reduction is the extremum over all elements"); CHECK((at < x.size()) , "the index of an index reduction is inside the view"); index_type a = vsx_pick(at); CHECK(x[a] == b, "the index of an index reduction is the position of an extremum"); }
template <typename R> index_type lin(Index<1> i, R const &) { return i[0]; }
template <typename V> index_type lin(Index<2> i, V const &v) { return i[0] * v.size(1) + i[1] + ((i[1] < v.size(1)) ? 0 : 1000); }
template <typename V> index_type lin(Index<3> i, V const &v) { return (i[0] * v.size(1) + i[1]) * v.size(2) + i[2] + (((i[1] < v.size(1)) & (i[2] < v.size(2))) ? 0 : 1000); }
template <typename T, typename V> void extrema(V v, std::vector<T> const &x, int k) { Index<V::dim> i; auto id = [](T a) { return a; }; std::vector<T> y(x);
  switch (k) { case 0: { T r = maxval(v, i); ext1<T>(id, y, r, lin(i, v), true); } break; case 1: { T r = minval(v, i); ext1<T>(id, y, r, lin(i, v), false); } break;
  case 2: { for (T &e : y) e = e < 0 ? -e : e; T r = maxmgval(v, i); ext1<T>(id, y, r, lin(i, v), true); } break; case 3: { for (T &e : y) e = e < 0 ? -e : e; T r = minmgval(v, i); ext1<T>(id, y, r, lin(i, v), false); } break; } }
// @entry c10_ext1 params=0-7
ENTRY(c10_ext1) { vsipl init; length_type n = len("n", 1, 4); int p = vsx_param(); if (p < 4) { Vector<float> v(n); std::vector<float> x; fill(v, x); extrema<float>(v, x, p); } else { Vector<int> w(9); auto v = w(Domain<1>(7, -2, n)); std::vector<int> x; fill(v, x); extrema<int>(v, x, p - 4); } }
// @entry c10_ext2 params=0-5
ENTRY(c10_ext2) { vsipl init; length_type m = len("m", 1, 3), n = len("n", 1, 2); switch (vsx_param()) { 
#define X2(T, E, k) { E; std::vector<T> x; fill2(v, x); extrema<T>(v, x, k); }
  case 0: X2(float, Matrix<float> v(m COMMA_ n), 0) break; case 1: X2(float, Matrix<float COMMA_ DC> v(m COMMA_ n), 0) break; case 2: X2(int, Matrix<int> v(m COMMA_ n), 1) break; case 3: X2(float, Matrix<float COMMA_ DC> v(m COMMA_ n), 3) break; case 4: X2(float, Matrix<float> w(n COMMA_ m); auto v = w.transpose(), 2) break; case 5: X2(float, Matrix<float COMMA_ DC> w(7 COMMA_ 5); auto v = w(Domain<2>(Domain<1>(6, -2, m), Domain<1>(0, 3, n))), 1) break; } }
#define X3(T, O, k) { Tensor<T, Dense<3, T, O> > v(l, m, n); std::vector<T> x; fill3(v, x); extrema<T>(v, x, k); }
// @entry c10_ext3 params=0-5 heavy=2
ENTRY(c10_ext3) { vsipl init; length_type l = len("l", 1, 2), m = len("m", 1, 2), n = len("n", 1, 2); switch (vsx_param()) { case 0: X3(float, T012, 0) break; case 1: X3(float, T021, 1) break; case 2: X3(float, T102, 0) break; case 3: X3(float, T120, 1) break; case 4: X3(int, T201, 0) break; case 5: X3(double, T210, 3) break; } }
// complex magnitudes
// @entry c10_mgsq params=0-3
ENTRY(c10_mgsq) { vsipl init; length_type n = len("n", 1, 3); int p = vsx_param(); std::vector<cf> x; std::vector<float> y; Index<1> i; float r;
  if (p < 2) { Vector<cf> v(n); fill(v, x); r = p == 0 ? maxmgsqval(v, i) : minmgsqval(v, i); } else { Vector<cf, SP1> v(n); fill(v, x); r = p == 2 ? maxmgsqval(v, i) : minmgsqval(v, i); }
  for (cf e : x) y.push_back(sq_(e)); ext1<float>(0, y, r, i[0], p % 2 == 0); }
// @entry c10_mg params=0-1
ENTRY(c10_mg) { vsipl init; length_type n = len("n", 1, 3); Vector<cf> v(n); std::vector<float> y; for (index_type i = 0; i < n; ++i) { long k = pick("k", -2, 2); v.put(i, cf(3 * k, -4 * k)); y.push_back(5 * (k < 0 ? -k : k)); } Index<1> i; bool mx = vsx_param() == 0; float r = mx ? maxmgval(v, i) : minmgval(v, i); ext1<float>(0, y, r, i[0], mx); }
