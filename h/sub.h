#pragma once
#include "c.h"
#include <vsip/complex.hpp>
#include <ovxx/strided.hpp>
using ovxx::Strided;
typedef tuple<0,1,2> R2; typedef tuple<1,0,2> C2;
typedef Dense<2, float> DR; typedef Dense<2, float, col2_type> DC;
typedef Strided<2, float, Layout<2, R2, aligned_16, array> > SR; typedef Strided<2, float, Layout<2, C2, aligned_16, array> > SC;
typedef Strided<2, complex<float>, Layout<2, R2, dense, split_complex> > SPR; typedef Dense<2, complex<float> > CR; typedef Dense<2, complex<float>, col2_type> CC;
typedef Strided<2, complex<float>, Layout<2, C2, dense, split_complex> > SPC;
template <typename T> struct mkv { static T at(long x) { return T(x); } };
template <typename R> struct mkv<complex<R> > { static complex<R> at(long x) { return complex<R>(R(x), R(-x - 1000)); } };
template <typename T> struct sy { static T mk(char const *n) { return T(vsx_int(n, -100, 100)); } };
template <> struct sy<float> { static float mk(char const *n) { return vsx_f32(n, -100, 100); } };
template <> struct sy<double> { static double mk(char const *n) { return vsx_f64(n, -100, 100); } };
template <typename R> struct sy<complex<R> > { static complex<R> mk(char const *n) { R r = sy<R>::mk(n); R i = sy<R>::mk(n); return complex<R>(r, i); } };
// concrete distinct background: element (i,j) holds 100*i+j
template <typename B> struct base2 {
  typedef typename B::value_type T; long m, n; Matrix<T, B> v;
  base2(long m_, long n_) : m(m_), n(n_), v(m_, n_) { for (long i = 0; i < m; ++i) for (long j = 0; j < n; ++j) v.put(i, j, mkv<T>::at(100 * i + j)); }
  T bg(long i, long j) const { return mkv<T>::at(100 * i + j); }
};
