// @property C18
// @stub fftw.c
// @bounds two dimensions: 1 to 4 points each, float and double; three dimensions: 1 to 3 points each; row-, column-major and any other dimension order, windows, split-complex storage
#include "fft.h"
static long nz(char const *n, long m) { long k = pick(n, 0, 2 * m - 1); return k < m ? k - m : k - m + 1; }
template <typename B> struct mo : wm<B> { mo(long m, long n, int k) : wm<B>(m, n, s(k, 0), s(k, 1)) {} static long s(int k, int w) { long r, c; shape(k, r, c); return w ? c : r; } };
// a whole matrix
template <typename B> struct mw { typedef typename B::value_type T; Matrix<T, B> v; mw(long m, long n, int) : v(m, n, T(9)) {} void outside(char const *) const {} };
template <typename T, typename I, typename O, int S, return_mechanism_type R> void c2c(long mx) { typedef complex<T> C; int sign = S == fft_fwd ? -1 : 1; long m = pick("m", 1, mx), n = pick("n", 1, mx); int si = pick("si", 0, 2), so = pick("so", 0, 2); if (si == 2) si = 5; if (so == 2) so = 3; T sc = T(pick("scale", 1, 2));
  I in(m, n, si); O out(m, n, so); xt e(1, m, n); Domain<2> d(m, n); Fft<const_Matrix, C, C, S, R, 1> f(d, sc); params(f, d, d, S == fft_fwd, sc);
  for (int pass = 0; pass < 2; ++pass) { std::vector<C> x = syv<C>("x", m * n); put2(in.v, x); std::vector<C> r = dft(e, 6, sign, x, sc);
    go<R>::run(f, in.v, out.v); near2(out.v, r, "FFT element"); out.outside("FFT writes nothing outside its output"); same2(in.v, x, "FFT leaves its input unchanged"); in.outside("FFT leaves its input unchanged");
    if (R == by_reference) { go<R>::ip(f, in.v); near2(in.v, r, "FFT element (in place)"); in.outside("in-place FFT changes nothing outside its argument"); } } }
template <typename T, typename I, typename O, int S, return_mechanism_type R> void r2c(long mx) { typedef complex<T> C; long m = pick("m", 1, mx), n = pick("n", 1, mx); int si = pick("si", 0, 2), so = pick("so", 0, 2); if (si == 2) si = 5; if (so == 2) so = 3; T sc = T(pick("scale", 1, 2));
  xt e(1, m, n), h = half(e, S + 1); I in(m, n, si); O out(h.n[1], h.n[2], so); Domain<2> d(m, n), k(h.n[1], h.n[2]); Fft<const_Matrix, T, C, S, R, 1> f(d, sc); params(f, d, k, true, sc);
  for (int pass = 0; pass < 2; ++pass) { std::vector<T> x = syv<T>("x", m * n); put2(in.v, x); go<R>::run(f, in.v, out.v); near2(out.v, cut(dft(e, 6, -1, cx(x), sc), e, S + 1), "real FFT element"); out.outside("FFT writes nothing outside its output"); same2(in.v, x, "FFT leaves its input unchanged"); in.outside("FFT leaves its input unchanged"); } }
template <typename T, typename I, typename O, int S, return_mechanism_type R> void c2r(long mx) { typedef complex<T> C; long m = pick("m", 1, mx), n = pick("n", 1, mx); int si = pick("si", 0, 2), so = pick("so", 0, 2); if (si == 2) si = 5; if (so == 2) so = 3; T sc = T(pick("scale", 1, 2));
  xt e(1, m, n), h = half(e, S + 1); I in(h.n[1], h.n[2], si); O out(m, n, so); Domain<2> d(m, n), k(h.n[1], h.n[2]); Fft<const_Matrix, C, T, S, R, 1> f(d, sc); params(f, k, d, false, sc);
  for (int pass = 0; pass < 2; ++pass) { std::vector<C> full = herm<T>("x", e, 6), x = cut(full, e, S + 1); put2(in.v, x); go<R>::run(f, in.v, out.v); near2(out.v, re(dft(e, 6, 1, full, sc)), "real inverse FFT element"); out.outside("FFT writes nothing outside its output"); same2(in.v, x, "FFT leaves its input unchanged"); in.outside("FFT leaves its input unchanged"); } }
// @entry c18_m_cc params=0-7
ENTRY(c18_m_cc) { vsipl init; switch (vsx_param()) { case 0: c2c<float, mo<ZR>, mw<ZR>, fft_fwd, by_value>(4); break; case 1: c2c<float, mo<ZR>, mo<ZC>, fft_inv, by_reference>(4); break; case 2: c2c<float, mw<ZC>, mo<ZR>, fft_fwd, by_reference>(4); break; case 3: c2c<float, mo<SPR>, mw<ZR>, fft_inv, by_reference>(3); break; case 4: c2c<double, mw<WR>, mw<WR>, fft_fwd, by_reference>(4); break; case 5: c2c<double, mo<WC>, mw<WC>, fft_inv, by_value>(3); break; case 6: c2c<float, mw<ZR>, mo<SPC>, fft_inv, by_value>(3); break; case 7: c2c<float, mw<ZC>, mw<ZR>, fft_inv, by_value>(4); break; } }
// @entry c18_m_rc params=0-7
ENTRY(c18_m_rc) { vsipl init; switch (vsx_param()) { case 0: r2c<float, mo<MR>, mw<ZR>, 0, by_value>(4); break; case 1: r2c<float, mo<MR>, mo<ZC>, 1, by_reference>(4); break; case 2: r2c<float, mw<MC>, mo<ZR>, 0, by_reference>(4); break; case 3: r2c<float, mo<MC>, mw<ZC>, 1, by_value>(4); break; case 4: r2c<double, mw<DMR>, mw<WC>, 0, by_reference>(4); break; case 5: r2c<double, mo<DMC>, mw<WR>, 1, by_value>(4); break; case 6: r2c<float, mw<MR>, mo<SPC>, 0, by_value>(3); break; case 7: r2c<float, mw<MR>, mw<ZR>, 1, by_reference>(4); break; } }
// @entry c18_m_cr params=0-7
ENTRY(c18_m_cr) { vsipl init; switch (vsx_param()) { case 0: c2r<float, mo<ZR>, mw<MR>, 0, by_value>(4); break; case 1: c2r<float, mo<ZR>, mo<MC>, 1, by_reference>(4); break; case 2: c2r<float, mw<ZC>, mo<MR>, 0, by_reference>(4); break; case 3: c2r<float, mo<ZC>, mw<MC>, 1, by_value>(4); break; case 4: c2r<double, mw<WR>, mw<DMC>, 0, by_reference>(4); break; case 5: c2r<double, mo<WC>, mw<DMR>, 1, by_value>(4); break; case 6: c2r<float, mw<SPR>, mo<MC>, 0, by_value>(3); break; case 7: c2r<float, mw<ZR>, mw<MR>, 1, by_reference>(4); break; } }
// three dimensions: whole tensors of any order, and every second plane, row and element of larger ones
template <typename B> struct tw { typedef typename B::value_type T; Tensor<T, B> v; tw(long a, long b, long c) : v(a, b, c, T(9)) {} void outside(char const *) const {} };
template <typename B> struct to { typedef typename B::value_type T; long a, b, c; Tensor<T, B> p; typename Tensor<T, B>::subview_type v;
  to(long a_, long b_, long c_) : a(a_), b(b_), c(c_), p(a + 1, 2 * b, c + 1), v(p(Domain<3>(Domain<1>(1, 1, a), Domain<1>(0, 2, b), Domain<1>(c, -1, c)))) { for (index_type i = 0; i < p.size(0); ++i) for (index_type j = 0; j < p.size(1); ++j) for (index_type k = 0; k < p.size(2); ++k) p.put(i, j, k, bgv<T>::at(49 * i + 7 * j + k)); }
  void outside(char const *m) const { for (long i = 0; i < (long)p.size(0); ++i) for (long j = 0; j < (long)p.size(1); ++j) for (long k = 0; k < (long)p.size(2); ++k) if (i < 1 || j % 2 || k < 1) CHECK(p.get(i, j, k) == bgv<T>::at(49 * i + 7 * j + k), m); } };
template <typename T, typename I, typename O, int S, return_mechanism_type R> void t_cc(long mx) { typedef complex<T> C; int sign = S == fft_fwd ? -1 : 1; long a = pick("a", 1, mx), b = pick("b", 1, mx), c = pick("c", 1, mx); T sc = T(pick("scale", 1, 2)); I in(a, b, c); O out(a, b, c); xt e(a, b, c); Domain<3> d(a, b, c); Fft<const_Tensor, C, C, S, R, 1> f(d, sc); params(f, d, d, S == fft_fwd, sc);
  std::vector<C> x = syv<C>("x", a * b * c); put3(in.v, x); std::vector<C> r = dft(e, 7, sign, x, sc); go<R>::run(f, in.v, out.v); near3(out.v, r, "FFT element"); out.outside("FFT writes nothing outside its output"); near3(in.v, x, "FFT leaves its input unchanged"); in.outside("FFT leaves its input unchanged"); if constexpr (R == by_reference) { go<R>::ip(f, in.v); near3(in.v, r, "FFT element (in place)"); in.outside("in-place FFT changes nothing outside its argument"); } }
template <typename T, typename I, typename O, int S, return_mechanism_type R> void t_rc(long mx) { typedef complex<T> C; long a = pick("a", 1, mx), b = pick("b", 1, mx), c = pick("c", 1, mx); T sc = T(pick("scale", 1, 2)); xt e(a, b, c), h = half(e, S); I in(a, b, c); O out(h.n[0], h.n[1], h.n[2]); Domain<3> d(a, b, c), k(h.n[0], h.n[1], h.n[2]); Fft<const_Tensor, T, C, S, R, 1> f(d, sc); params(f, d, k, true, sc);
  std::vector<T> x = syv<T>("x", a * b * c); put3(in.v, x); go<R>::run(f, in.v, out.v); near3(out.v, cut(dft(e, 7, -1, cx(x), sc), e, S), "real FFT element"); out.outside("FFT writes nothing outside its output"); near3(in.v, x, "FFT leaves its input unchanged"); in.outside("FFT leaves its input unchanged"); }
template <typename T, typename I, typename O, int S, return_mechanism_type R> void t_cr(long mx) { typedef complex<T> C; long a = pick("a", 1, mx), b = pick("b", 1, mx), c = pick("c", 1, mx); T sc = T(pick("scale", 1, 2)); xt e(a, b, c), h = half(e, S); I in(h.n[0], h.n[1], h.n[2]); O out(a, b, c); Domain<3> d(a, b, c), k(h.n[0], h.n[1], h.n[2]); Fft<const_Tensor, C, T, S, R, 1> f(d, sc); params(f, k, d, false, sc);
  std::vector<C> full = herm<T>("x", e, 7), x = cut(full, e, S); put3(in.v, x); go<R>::run(f, in.v, out.v); near3(out.v, re(dft(e, 7, 1, full, sc)), "real inverse FFT element"); out.outside("FFT writes nothing outside its output"); near3(in.v, x, "FFT leaves its input unchanged"); in.outside("FFT leaves its input unchanged"); }
typedef Dense<3, z, tuple<0,1,2> > T012; typedef Dense<3, z, tuple<2,1,0> > T210; typedef Dense<3, z, tuple<1,0,2> > T102; typedef Dense<3, z, tuple<0,2,1> > T021; typedef Dense<3, z, tuple<1,2,0> > T120; typedef Dense<3, z, tuple<2,0,1> > T201;
typedef Dense<3, float, tuple<0,1,2> > F012; typedef Dense<3, float, tuple<2,1,0> > F210; typedef Dense<3, float, tuple<1,0,2> > F102; typedef Dense<3, float, tuple<0,2,1> > F021; typedef Dense<3, double, tuple<0,1,2> > E012; typedef Dense<3, w, tuple<2,1,0> > W210; typedef Dense<3, w> W012;
// @entry c18_t_cc params=0-6
ENTRY(c18_t_cc) { vsipl init; switch (vsx_param()) { case 0: t_cc<float, tw<T012>, tw<T012>, fft_fwd, by_value>(3); break; case 1: t_cc<float, tw<T210>, to<T102>, fft_inv, by_value>(3); break; case 2: t_cc<float, to<T012>, tw<T021>, fft_fwd, by_reference>(3); break; case 3: t_cc<float, tw<T120>, tw<T201>, fft_inv, by_reference>(3); break; case 4: t_cc<float, to<T021>, to<T012>, fft_inv, by_reference>(3); break; case 5: t_cc<double, tw<W012>, tw<W210>, fft_fwd, by_reference>(3); break; case 6: t_cc<double, to<W210>, tw<W012>, fft_fwd, by_value>(3); break; } }
// @entry c18_t_rc params=0-6
ENTRY(c18_t_rc) { vsipl init; switch (vsx_param()) { case 0: t_rc<float, tw<F012>, tw<T012>, 0, by_value>(3); break; case 1: t_rc<float, tw<F012>, tw<T012>, 1, by_reference>(3); break; case 2: t_rc<float, tw<F012>, tw<T012>, 2, by_reference>(3); break; case 3: t_rc<float, to<F210>, tw<T210>, 0, by_reference>(3); break; case 4: t_rc<float, tw<F021>, to<T021>, 1, by_value>(3); break; case 5: t_rc<float, to<F102>, tw<T120>, 2, by_value>(3); break; case 6: t_rc<double, tw<E012>, tw<W210>, 1, by_value>(3); break; } }
// @entry c18_t_cr params=0-6
ENTRY(c18_t_cr) { vsipl init; switch (vsx_param()) { case 0: t_cr<float, tw<T012>, tw<F012>, 0, by_value>(3); break; case 1: t_cr<float, tw<T012>, tw<F012>, 1, by_reference>(3); break; case 2: t_cr<float, tw<T012>, tw<F012>, 2, by_reference>(3); break; case 3: t_cr<float, to<T210>, tw<F210>, 0, by_reference>(3); break; case 4: t_cr<float, tw<T021>, to<F021>, 1, by_value>(3); break; case 5: t_cr<float, to<T102>, tw<F102>, 2, by_value>(3); break; case 6: t_cr<double, tw<W210>, tw<E012>, 1, by_value>(3); break; } }
