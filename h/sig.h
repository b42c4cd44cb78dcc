#pragma once
#include "sub.h"
#include <vsip/signal.hpp>
typedef Strided<1, complex<float>, Layout<1, tuple<0>, dense, split_complex> > SP1;
template <typename T> struct bgv { static T at(long x) { return T(1000 + x); } };
template <typename R> struct bgv<complex<R> > { static complex<R> at(long x) { return complex<R>(R(1000 + x), R(-2000 - x)); } };
// a vector view of n elements inside a larger parent, strided by a picked stride
template <typename B> struct sv { typedef typename B::value_type T; Vector<T, B> p; Domain<1> d; typename Vector<T, B>::subview_type v;
  static Domain<1> dom(length_type n, long st) { return st > 0 ? Domain<1>(1, st, n) : Domain<1>(1 + (n - 1) * -st, st, n); }
  sv(length_type n, long st) : p(1 + (n - 1) * (st > 0 ? st : -st) + 2), d(dom(n, st)), v(p(d)) { for (index_type i = 0; i < p.size(); ++i) p.put(i, bgv<T>::at(i)); }
  void outside(char const *m) const { long s = d.stride(); for (long i = 0; i < (long)p.size(); ++i) { bool in = false; for (length_type k = 0; k < d.size(); ++k) in |= (long)d.first() + (long)k * s == i; if (!in) CHECK(p.get(i) == bgv<T>::at(i), m); } } };
// a whole dense vector
template <typename B> struct dv { typedef typename B::value_type T; Vector<T, B> v; dv(length_type n, long) : v(n) { for (index_type i = 0; i < n; ++i) v.put(i, bgv<T>::at(i)); } void outside(char const *) const {} };
// a column of a row-major matrix
template <typename E> struct cv { typedef E T; Matrix<T> p; typename Matrix<T>::col_type v; cv(length_type n, long) : p(n, 3), v(p.col(1)) { for (index_type i = 0; i < n; ++i) for (index_type j = 0; j < 3; ++j) p.put(i, j, bgv<T>::at(3 * i + j)); }
  void outside(char const *m) const { for (index_type i = 0; i < p.size(0); ++i) for (index_type j = 0; j < 3; j += 2) CHECK(p.get(i, j) == bgv<T>::at(3 * i + j), m); } };
template <typename T> std::vector<T> syv(char const *n, length_type k) { std::vector<T> r; for (length_type i = 0; i < k; ++i) r.push_back(sy<T>::mk(n)); return r; }
template <typename V, typename T> void put1(V v, std::vector<T> const &x) { for (length_type i = 0; i < x.size(); ++i) v.put(i, x[i]); }
template <typename V, typename T> void put2(V v, std::vector<T> const &x) { for (index_type i = 0; i < v.size(0); ++i) for (index_type j = 0; j < v.size(1); ++j) v.put(i, j, x[i * v.size(1) + j]); }
// matrix windows inside larger parents, either dimension order
template <typename B> struct sm { typedef typename B::value_type T; Matrix<T, B> p; typename Matrix<T, B>::subview_type v; long sr, sc;
  sm(length_type m, length_type n, long sr_, long sc_) : p(m * sr_ + 1, n * sc_ + 1), v(p(Domain<2>(Domain<1>(1, sr_, m), Domain<1>(1, sc_, n)))), sr(sr_), sc(sc_) { for (index_type i = 0; i < p.size(0); ++i) for (index_type j = 0; j < p.size(1); ++j) p.put(i, j, bgv<T>::at(20 * i + j)); }
  void outside(char const *m) const { for (long i = 0; i < (long)p.size(0); ++i) for (long j = 0; j < (long)p.size(1); ++j) if (i < 1 || j < 1 || (i - 1) % sr || (j - 1) % sc) CHECK(p.get(i, j) == bgv<T>::at(20 * i + j), m); } };
template <typename B> struct dm { typedef typename B::value_type T; Matrix<T, B> v; dm(length_type m, length_type n, long, long) : v(m, n, T()) {} void outside(char const *) const {} };
