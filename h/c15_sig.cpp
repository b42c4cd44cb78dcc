// @property C15
// @bounds freqswap: vectors up to 6, matrices up to 4 by 4 (5 by 5 thorough), in place included; vmmul: up to 3 by 3; histograms: 3 to 7 bins, 3 values of a symbolic integer range, two accumulations, boundary float values listed
#include "sig.h"
#include <vsip/impl/vmmul.hpp>
#include "mv.h"
#include <cmath>
// freqswap: element i of the result is element (i + ceil(M/2)) mod M of the argument
inline index_type fs(index_type i, length_type M) { return (i + M - M / 2) % M; }
template <typename A, typename B> void f1() { typedef typename A::T T; length_type n = len("n", 1, 6); long s = pick("s", -2, 2), t = pick("t", -2, 2); vsx_assume((s != 0) & (t != 0)); std::vector<T> a = syv<T>("a", n); A x(n, s); put1(x.v, a); B y(n, t); y.v = freqswap(x.v); for (index_type i = 0; i < n; ++i) CHECK(y.v.get(i) == typename B::T(a[fs(i, n)]), "freqswap of a vector exchanges its halves"); y.outside("freqswap writes nothing else"); same1(x.v, a, "freqswap leaves its argument unchanged");
  x.v = freqswap(x.v); for (index_type i = 0; i < n; ++i) CHECK(x.v.get(i) == a[fs(i, n)], "freqswap in place exchanges the halves"); x.outside("freqswap in place writes nothing else"); Vector<T> q(n); put1(q, a); q = freqswap(q) + T(1); for (index_type i = 0; i < n; ++i) CHECK(q.get(i) == a[fs(i, n)] + T(1), "freqswap inside an expression"); }
template <typename A, typename B> void f2(int mx) { typedef typename A::T T; length_type m = len("m", 1, mx), n = len("n", 1, mx); long r, c; shape((int)pick("sh", 0, SHAPES - 1), r, c); std::vector<T> a = syv<T>("a", m * n); A x(m, n, r, c); put2(x.v, a); B y(m, n, c, r); y.v = freqswap(x.v); for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) CHECK(y.v.get(i, j) == typename B::T(a[fs(i, m) * n + fs(j, n)]), "freqswap of a matrix exchanges its quadrants"); y.outside("freqswap writes nothing else"); same2(x.v, a, "freqswap leaves its argument unchanged");
  ovxx::signal::freqswap<row>(x.v, y.v); for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) CHECK(y.v.get(i, j) == typename B::T(a[i * n + fs(j, n)]), "freqswap<row> swaps each row"); ovxx::signal::freqswap<col>(x.v, y.v); for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) CHECK(y.v.get(i, j) == typename B::T(a[fs(i, m) * n + j]), "freqswap<col> swaps each column"); y.outside("freqswap writes nothing else");
  x.v = freqswap(x.v); for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) CHECK(x.v.get(i, j) == a[fs(i, m) * n + fs(j, n)], "freqswap in place exchanges the quadrants"); x.outside("freqswap in place writes nothing else"); }
// the same elements through two views of the same block
template <typename B> void f2a() { typedef typename B::value_type T; length_type m = len("m", 1, 4), n = len("n", 1, 4); std::vector<T> a = syv<T>("a", m * n); wm<B> x(m, n, 1, 1); put2(x.v, a); typename Matrix<T, B>::subview_type u = x.p(x.d), v = x.p(x.d); u = freqswap(v); for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) CHECK(x.v.get(i, j) == a[fs(i, m) * n + fs(j, n)], "freqswap in place through another view of the same elements");
  Matrix<T, B> w(m, n); put2(w, a); Matrix<T, B> w2(w); w2 = freqswap(w); for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) CHECK(w.get(i, j) == a[fs(i, m) * n + fs(j, n)], "freqswap in place through a second handle"); }
// @entry c15_fs1 params=0-3
ENTRY(c15_fs1) { vsipl init; switch (vsx_param()) { case 0: f1<sv<D1>, sv<D1> >(); break; case 1: f1<cv<z>, sv<SP1> >(); break; case 2: f1<sv<SP1>, cv<z> >(); break; case 3: f1<sv<Dense<1, int> >, sv<DD1> >(); break; } }
// @entry c15_fs2 params=0-3
ENTRY(c15_fs2) { vsipl init; switch (vsx_param()) { case 0: f2<wm<MR>, wm<MC> >(4); break; case 1: f2<wm<MC>, wm<DMR> >(4); break; case 2: f2<wm<ZR>, wm<SPR> >(3); break; case 3: f2<wm<SPC>, wm<ZC> >(3); break; } }
// @entry c15_fs2t params=0-1 tier=thorough
ENTRY(c15_fs2t) { vsipl init; if (vsx_param()) f2<wm<MR>, wm<MR> >(6); else f2<wm<MC>, wm<MR> >(6); }
// @entry c15_fs2a params=0-2
ENTRY(c15_fs2a) { vsipl init; switch (vsx_param()) { case 0: f2a<MR>(); break; case 1: f2a<MC>(); break; case 2: f2a<SPR>(); break; } }
template <typename V, typename M, typename R> void vm() { typedef typename R::T T; length_type m = len("m", 1, 3), n = len("n", 1, 3); long r, c; shape((int)pick("sh", 0, SHAPES - 1), r, c); long s = pick("s", -1, 2); vsx_assume(s != 0); typedef typename V::T TV; typedef typename M::T TM; std::vector<TV> a = syv<TV>("a", n), b = syv<TV>("b", m); std::vector<TM> x = syv<TM>("x", m * n); V va(n, s), vb(m, s); put1(va.v, a); put1(vb.v, b); M mm(m, n, r, c); put2(mm.v, x); R q(m, n, c, r);
  q.v = vmmul<row>(va.v, mm.v); for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) CHECK(q.v.get(i, j) == T(a[j]) * T(x[i * n + j]), "vmmul<row> multiplies every row by the vector"); q.v = vmmul<col>(vb.v, mm.v); for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) CHECK(q.v.get(i, j) == T(b[i]) * T(x[i * n + j]), "vmmul<col> multiplies every column by the vector"); q.outside("vmmul writes nothing else"); same2(mm.v, x, "vmmul leaves its arguments unchanged"); same1(va.v, a, "vmmul leaves its arguments unchanged");
  q.v = vmmul<row>(va.v + TV(1), mm.v * TM(2)) + T(3); for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) CHECK(q.v.get(i, j) == T(a[j] + TV(1)) * T(x[i * n + j] * TM(2)) + T(3), "vmmul of and inside expressions"); q.v = T(2); q.v *= vmmul<col>(vb.v, mm.v); for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) CHECK(q.v.get(i, j) == T(2) * (T(b[i]) * T(x[i * n + j])), "vmmul in a compound assignment");
  mm.v = vmmul<row>(va.v, mm.v); for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) CHECK(mm.v.get(i, j) == TM(TM(a[j]) * x[i * n + j]), "vmmul in place"); }
// @entry c15_vmmul params=0-3
ENTRY(c15_vmmul) { vsipl init; switch (vsx_param()) { case 0: vm<sv<D1>, wm<MR>, wm<MC> >(); break; case 1: vm<cv<float>, wm<ZC>, wm<ZR> >(); break; case 2: vm<sv<Z1>, wm<ZR>, wm<SPR> >(); break; case 3: vm<sv<DD1>, wm<DMC>, wm<DMR> >(); break; } }
// the product is formed in the type the operand types promote to, whatever the type of the result
template <typename RB, typename MB> void vmx() { length_type m = len("m", 1, 3), n = len("n", 1, 3); std::vector<float> a, b, x = syv<float>("x", m * n); for (index_type i = 0; i < 3; ++i) { a.push_back(i == 1 ? -3.f : 1.f + i); b.push_back(i ? 2.f - i : -5.f); } Vector<float> va(n), vb(m); Matrix<float, MB> mm(m, n); for (index_type i = 0; i < n; ++i) va.put(i, a[i] * 4); for (index_type i = 0; i < m; ++i) vb.put(i, b[i] * 4); for (index_type i = 0; i < m * n; ++i) mm.put(i / n, i % n, x[i] / 4); Matrix<int, Dense<2, int, RB> > q(m, n);
  q = vmmul<row>(va, mm); for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) CHECK(q.get(i, j) == int(a[j]) * int(x[i * n + j]), "vmmul<row> into a matrix of integers converts the products"); q = vmmul<col>(vb, mm); for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) CHECK(q.get(i, j) == int(b[i]) * int(x[i * n + j]), "vmmul<col> into a matrix of integers converts the products"); }
// @entry c15_vmx params=0-2
ENTRY(c15_vmx) { vsipl init; switch (vsx_param()) { case 0: vmx<row2_type, MR>(); break; case 1: vmx<col2_type, MC>(); break; case 2: vmx<row2_type, MC>(); break; } }
// histograms: bin k (1 <= k <= n) of n interior bins holds the values with min + (k-1) w <= v < min + k w, w = (max - min) / n
template <typename T> index_type bin(long mn, long mx, long n, long v) { return v < mn ? 0 : v >= mx ? n + 1 : (v - mn) * n / (mx - mn) + 1; }
template <template <typename, typename> class CV, typename T, typename IN> void hist(bool exact, IN mk) { long nb = pick("nb", 3, 7), mn = pick("mn", -1, 0), wd = exact ? (nb - 2) * pick("w", 1, 2) : pick("w", 1, 3) * 5 - 1, mx = mn + wd; Histogram<CV, T> h(T(mn), T(mx), nb); long want[9] = {0, 0, 0, 0, 0, 0, 0, 0, 0}; int acc = (int)pick("acc", 0, 1);
  for (int rep = 0; rep < 2; ++rep) { long x[2] = {rep ? mx : mn - 1, mn}; x[rep] = vsx_int("x", mn - 2, mx + 1); if (rep && !acc) for (int k = 0; k < 9; ++k) want[k] = 0; auto v = mk(x); const_Vector<scalar_i> r = h(v, rep && acc); CHECK(r.size() == (length_type)nb, "a histogram has its number of bins"); for (int i = 0; i < 2; ++i) { index_type b = bin<T>(mn, mx, nb - 2, x[i]); for (int k = 0; k < nb; ++k) want[k] += b == (index_type)k; } for (int k = 0; k < nb; ++k) CHECK(r.get(k) == want[k], "a histogram counts every value in its bin"); } }
template <typename T> struct vin { Vector<T> p; typename Vector<T>::subview_type operator()(long const *x) { p.put(0, T(5)); p.put(1, T(x[1])); p.put(2, T(6)); p.put(3, T(x[0])); return p(Domain<1>(3, -2, 2)); } vin() : p(5, T(1)) {} };
template <typename T, typename B> struct min_ { Matrix<T, B> p; typename Matrix<T, B>::subview_type operator()(long const *x) { p.put(1, 0, T(x[0])); p.put(1, 2, T(x[1])); return p(Domain<2>(Domain<1>(1, 1, 1), Domain<1>(0, 2, 2))); } min_() : p(3, 4, T(1)) {} };
// @entry c15_hist params=0-5 heavy=4
ENTRY(c15_hist) { vsipl init; switch (vsx_param()) { case 0: hist<const_Vector, int>(false, vin<int>()); break; case 1: hist<const_Vector, int>(true, vin<int>()); break; case 2: hist<const_Matrix, int>(false, min_<int, Dense<2, int, col2_type> >()); break; case 3: hist<const_Vector, long>(false, vin<long>()); break; case 4: hist<const_Vector, float>(true, vin<float>()); break; case 5: hist<const_Matrix, double>(true, min_<double, Dense<2, double> >()); break; } }
// values next to the boundaries of the bins
inline float before(float x) { union { float f; unsigned u; } c; c.f = x; if (x == 0) return -1e-30f; c.u -= 1; return c.f; } inline double before(double x) { union { double f; unsigned long u; } c; c.f = x; if (x == 0) return -1e-300; c.u -= 1; return c.f; }
// @entry c15_histb params=0-1
template <typename T> void histb() { long n = pick("n", 1, 6), k = pick("k", 0, 6), side = pick("side", 0, 1), mn = pick("mn", 0, 1); vsx_assume(k <= n); T b = T(mn + k); T v = side ? b : before(b); Histogram<const_Vector, T> h(T(mn), T(mn + n), n + 2); Vector<T> x(1, v); const_Vector<scalar_i> r = h(x); for (long i = 0; i < n + 2; ++i) CHECK(r.get(i) == (i == k + side), "a value next to the boundary of two bins is counted on its own side"); }
ENTRY(c15_histb) { vsipl init; if (vsx_param()) histb<double>(); else histb<float>(); }
