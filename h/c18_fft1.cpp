// @property C18
// @stub fftw.c
// @bounds one dimension: 1 to 5 points and 8; float and double; whole vectors, strided windows (-2..2), matrix columns, split-complex storage
#include "fft.h"
static long nz(char const *n, long m) { long k = pick(n, 0, 2 * m - 1); return k < m ? k - m : k - m + 1; }
static long npts() { long n = pick("n", 1, 6); return n == 6 ? 8 : n; }
// complex to complex, by value and by reference, twice with different data on one object
template <typename T, typename I, typename O, int S, unsigned N> void c2c(int k) { typedef complex<T> C; int sign = S == fft_fwd ? -1 : 1; long n = npts(), si = nz("si", 2), so = nz("so", 1); T sc = T(pick("scale", 1, 3));
  I in(n, si); O out(n, so * 2); Domain<1> d(n); xt e(1, 1, n);
  if (k == 0) { Fft<const_Vector, C, C, S, by_value, N> f(d, sc); params(f, d, d, S == fft_fwd, sc); for (int pass = 0; pass < 2; ++pass) { std::vector<C> x = syv<C>("x", n); put1(in.v, x); out.v = f(in.v); near1(out.v, dft(e, 4, sign, x, sc), "FFT element (by value)"); out.outside("FFT writes nothing outside its output"); same1(in.v, x, "FFT leaves its input unchanged"); in.outside("FFT leaves its input unchanged"); } }
  if (k == 1) { Fft<const_Vector, C, C, S, by_reference, N> f(d, sc); params(f, d, d, S == fft_fwd, sc); for (int pass = 0; pass < 2; ++pass) { std::vector<C> x = syv<C>("x", n); put1(in.v, x); f(in.v, out.v); near1(out.v, dft(e, 4, sign, x, sc), "FFT element (by reference)"); out.outside("FFT writes nothing outside its output"); same1(in.v, x, "FFT leaves its input unchanged"); in.outside("FFT leaves its input unchanged"); } }
  if (k == 2) { Fft<const_Vector, C, C, S, by_reference, N> f(d, sc); for (int pass = 0; pass < 2; ++pass) { std::vector<C> x = syv<C>("x", n); put1(in.v, x); f(in.v); near1(in.v, dft(e, 4, sign, x, sc), "FFT element (in place)"); in.outside("in-place FFT changes nothing outside its argument"); } }
  if (k == 3) { Fft<const_Vector, C, C, S, by_value, N> f(d, sc); std::vector<C> x = syv<C>("x", n), y = syv<C>("y", n), s; put1(in.v, x); O b(n, so); put1(b.v, y); for (long i = 0; i < n; ++i) s.push_back(x[i] + C(2) * y[i]); out.v = f(in.v + C(2) * b.v); near1(out.v, dft(e, 4, sign, s, sc), "FFT of an expression");
    out.v = f(in.v) + f(b.v); for (long i = 0; i < n; ++i) s[i] = x[i] + y[i]; near1(out.v, dft(e, 4, sign, s, sc), "FFTs inside an expression"); out.v = b.v - T(2) * f(in.v); std::vector<C> r = dft(e, 4, sign, x, sc); for (long i = 0; i < n; ++i) r[i] = y[i] - T(2) * r[i]; near1(out.v, r, "FFT inside an expression"); same1(in.v, x, "FFT leaves its input unchanged"); in.v = f(in.v); near1(in.v, dft(e, 4, sign, x, sc), "FFT assigned to its own input"); in.outside("FFT writes nothing outside its output"); } }
template <typename T, typename I, typename O, unsigned N> void r2c(int k) { typedef complex<T> C; long n = npts(), si = nz("si", 2), so = nz("so", 1); T sc = T(pick("scale", 1, 2)); long h = n / 2 + 1;
  I in(n, si); O out(h, so * 2); xt e(1, 1, n);
  for (int pass = 0; pass < 2; ++pass) { std::vector<T> x = syv<T>("x", n); put1(in.v, x); std::vector<C> r = cut(dft(e, 4, -1, cx(x), sc), e, 2);
    if (k == 0) { Fft<const_Vector, T, C, 0, by_value, N> f(Domain<1>(n), sc); params(f, Domain<1>(n), Domain<1>(h), true, sc); out.v = f(in.v); near1(out.v, r, "real FFT element (by value)"); }
    else { Fft<const_Vector, T, C, 0, by_reference, N> f(Domain<1>(n), sc); params(f, Domain<1>(n), Domain<1>(h), true, sc); f(in.v, out.v); near1(out.v, r, "real FFT element (by reference)"); }
    out.outside("FFT writes nothing outside its output"); same1(in.v, x, "FFT leaves its input unchanged"); in.outside("FFT leaves its input unchanged"); } }
template <typename T, typename I, typename O, unsigned N> void c2r(int k) { typedef complex<T> C; long n = npts(), si = nz("si", 2), so = nz("so", 1); T sc = T(pick("scale", 1, 2)); long h = n / 2 + 1;
  I in(h, si); O out(n, so * 2); xt e(1, 1, n);
  for (int pass = 0; pass < 2; ++pass) { std::vector<C> full = herm<T>("x", e, 4), x = cut(full, e, 2); put1(in.v, x); std::vector<T> r = re(dft(e, 4, 1, full, sc));
    if (k == 0) { Fft<const_Vector, C, T, 0, by_value, N> f(Domain<1>(n), sc); params(f, Domain<1>(h), Domain<1>(n), false, sc); out.v = f(in.v); near1(out.v, r, "real inverse FFT element (by value)"); }
    else { Fft<const_Vector, C, T, 0, by_reference, N> f(Domain<1>(n), sc); params(f, Domain<1>(h), Domain<1>(n), false, sc); f(in.v, out.v); near1(out.v, r, "real inverse FFT element (by reference)"); }
    out.outside("FFT writes nothing outside its output"); same1(in.v, x, "FFT leaves its input unchanged"); in.outside("FFT leaves its input unchanged"); } }
// a dense vector over the user's own memory, at any element offset from an aligned address
template <typename E> struct uv { typedef E T; E *m; long off, n; Dense<1, E> b; Vector<E> v; uv(length_type n_, long o) : m((E *)aligned_alloc(64, 64 * (1 + (n_ + 8) * sizeof(E) / 64))), off(o + 2), n(n_), b(Domain<1>(n_), m + off), v(b) { for (long i = 0; i < n + 8; ++i) m[i] = bgv<T>::at(i); b.admit(true); }
  void outside(char const *msg) const { for (long i = 0; i < n + 8; ++i) if (i < off || i >= off + n) CHECK(m[i] == bgv<T>::at(i), msg); } ~uv() { v.block().release(true); free(m); } };
typedef Dense<1, float> F1; typedef Dense<1, double> E1;
// @entry c18_cc_f params=0-7
ENTRY(c18_cc_f) { vsipl init; int p = vsx_param(); p < 4 ? c2c<float, sv<Z1>, sv<Z1>, fft_fwd, 0>(p) : c2c<float, dv<Z1>, dv<Z1>, fft_inv, 1>(p - 4); }
// @entry c18_cc_s params=0-7
ENTRY(c18_cc_s) { vsipl init; int p = vsx_param(); p < 4 ? c2c<float, sv<SP1>, cv<z>, fft_inv, 12>(p) : c2c<float, cv<z>, dv<SP1>, fft_fwd, 32>(p - 4); }
// @entry c18_cc_d params=0-7
ENTRY(c18_cc_d) { vsipl init; int p = vsx_param(); p < 4 ? c2c<double, sv<W1>, dv<W1>, fft_fwd, 1>(p) : c2c<double, dv<W1>, cv<w>, fft_inv, 0>(p - 4); }
// @entry c18_rc params=0-7
ENTRY(c18_rc) { vsipl init; int p = vsx_param(); if (p < 2) r2c<float, sv<F1>, sv<Z1>, 1>(p); else if (p < 4) r2c<float, dv<F1>, dv<Z1>, 0>(p - 2); else if (p < 6) r2c<double, cv<double>, dv<W1>, 12>(p - 4); else r2c<float, dv<F1>, sv<SP1>, 1>(p - 6); }
// @entry c18_cr params=0-7
ENTRY(c18_cr) { vsipl init; int p = vsx_param(); if (p < 2) c2r<float, sv<Z1>, sv<F1>, 1>(p); else if (p < 4) c2r<float, dv<Z1>, dv<F1>, 0>(p - 2); else if (p < 6) c2r<double, dv<W1>, cv<double>, 12>(p - 4); else c2r<float, sv<SP1>, dv<F1>, 1>(p - 6); }
// @entry c18_user params=0-6
ENTRY(c18_user) { vsipl init; int p = vsx_param(); if (p < 3) c2c<float, uv<z>, uv<z>, fft_fwd, 1>(p); else if (p == 3) r2c<float, uv<float>, uv<z>, 1>(1); else if (p == 4) c2r<float, uv<z>, uv<float>, 1>(1); else if (p == 5) c2c<double, uv<w>, uv<w>, fft_inv, 1>(1); else r2c<double, uv<double>, uv<w>, 1>(1); }
