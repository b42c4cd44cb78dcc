#pragma once
#include "sig.h"
#include <vsip/impl/matvec.hpp>
#include <vsip/impl/matvec_prod.hpp>
typedef complex<float> z; typedef complex<double> w;
typedef Dense<1, float> D1; typedef Dense<1, double> DD1; typedef Dense<1, z> Z1; typedef Dense<1, w> W1;
typedef Dense<2, float> MR; typedef Dense<2, float, col2_type> MC; typedef Dense<2, double> DMR; typedef Dense<2, double, col2_type> DMC;
typedef Dense<2, z> ZR; typedef Dense<2, z, col2_type> ZC; typedef Dense<2, w> WR; typedef Dense<2, w, col2_type> WC;
// a matrix window with any strides, possibly negative, inside a larger parent
template <typename B> struct wm { typedef typename B::value_type T; long m, n, sr, sc; Domain<2> d; Matrix<T, B> p; typename Matrix<T, B>::subview_type v;
  static long ab(long x) { return x < 0 ? -x : x; } static Domain<1> dom(long n, long s) { return s > 0 ? Domain<1>(1, s, n) : Domain<1>(1 + (n - 1) * -s, s, n); }
  wm(long m_, long n_, long r, long c) : m(m_), n(n_), sr(r), sc(c), d(dom(m, r), dom(n, c)), p((m - 1) * ab(r) + 3, (n - 1) * ab(c) + 3), v(p(d)) { for (index_type i = 0; i < p.size(0); ++i) for (index_type j = 0; j < p.size(1); ++j) p.put(i, j, bgv<T>::at(20 * i + j)); }
  void outside(char const *msg) const { for (long i = 0; i < (long)p.size(0); ++i) for (long j = 0; j < (long)p.size(1); ++j) { bool a = false, b = false; for (long k = 0; k < m; ++k) a |= (long)d[0].first() + k * sr == i; for (long k = 0; k < n; ++k) b |= (long)d[1].first() + k * sc == j; if (!(a & b)) CHECK(p.get(i, j) == bgv<T>::at(20 * i + j), msg); } } };
// window shapes: whole rows/columns of the parent used, every second one, backwards
inline void shape(int k, long &r, long &c) { static long const s[][2] = {{1, 1}, {2, 1}, {1, 2}, {-1, 1}, {1, -1}, {-2, -2}}; r = s[k][0]; c = s[k][1]; }
#define SHAPES 6
template <typename T> struct cjg { static T f(T x) { return x; } }; template <typename R> struct cjg<complex<R> > { static complex<R> f(complex<R> x) { return conj(x); } };
template <typename V, typename T> void same1(V v, std::vector<T> const &x, char const *m) { for (index_type i = 0; i < v.size(); ++i) CHECK(v.get(i) == x[i], m); }
template <typename V, typename T> void same2(V v, std::vector<T> const &x, char const *m) { for (index_type i = 0; i < v.size(0); ++i) for (index_type j = 0; j < v.size(1); ++j) CHECK(v.get(i, j) == x[i * v.size(1) + j], m); }
