// @property C18
// @stub fftw.c
// @bounds multiple transforms: up to 3 of 1 to 4 or 8 points, rows or columns; float and double; either dimension order, windows, split-complex storage
#include "fft.h"
template <typename B> struct mo : wm<B> { mo(long m, long n, int k) : wm<B>(m, n, s(k, 0), s(k, 1)) {} static long s(int k, int w) { long r, c; shape(k, r, c); return w ? c : r; } };
template <typename B> struct mw { typedef typename B::value_type T; Matrix<T, B> v; mw(long m, long n, int) : v(m, n, T(9)) {} void outside(char const *) const {} };
static long npts(long mx) { long n = pick("n", 1, mx); return n == 5 ? 8 : n; }
#define SET long l = npts(mx), q = pick("q", 1, 3), m = A == vsip::row ? q : l, n = A == vsip::row ? l : q; int si = pick("si", 0, 2), so = pick("so", 0, 2); if (si == 2) si = 5; if (so == 2) so = 3; T sc = T(pick("scale", 1, 2)); int dd = A == vsip::row ? 2 : 1, mask = 1 << dd; xt e(1, m, n), h = half(e, dd); Domain<2> d(m, n), k(h.n[1], h.n[2])
template <typename T, typename I, typename O, int A, int D, return_mechanism_type R> void c2c(long mx) { typedef complex<T> C; SET; I in(m, n, si); O out(m, n, so); Fftm<C, C, A, D, R, 1> f(d, sc); params(f, d, d, D == fft_fwd, sc);
  for (int pass = 0; pass < 2; ++pass) { std::vector<C> x = syv<C>("x", m * n), r; put2(in.v, x); r = dft(e, mask, D == fft_fwd ? -1 : 1, x, sc); go<R>::run(f, in.v, out.v); near2(out.v, r, "multiple FFT element"); out.outside("FFT writes nothing outside its output"); same2(in.v, x, "FFT leaves its input unchanged"); in.outside("FFT leaves its input unchanged"); if constexpr (R == by_reference) { go<R>::ip(f, in.v); near2(in.v, r, "multiple FFT element (in place)"); in.outside("in-place FFT changes nothing outside its argument"); } } }
template <typename T, typename I, typename O, int A, return_mechanism_type R> void r2c(long mx) { typedef complex<T> C; SET; I in(m, n, si); O out(h.n[1], h.n[2], so); Fftm<T, C, A, fft_fwd, R, 1> f(d, sc); params(f, d, k, true, sc);
  for (int pass = 0; pass < 2; ++pass) { std::vector<T> x = syv<T>("x", m * n); put2(in.v, x); go<R>::run(f, in.v, out.v); near2(out.v, cut(dft(e, mask, -1, cx(x), sc), e, dd), "multiple real FFT element"); out.outside("FFT writes nothing outside its output"); same2(in.v, x, "FFT leaves its input unchanged"); in.outside("FFT leaves its input unchanged"); } }
template <typename T, typename I, typename O, int A, return_mechanism_type R> void c2r(long mx) { typedef complex<T> C; SET; I in(h.n[1], h.n[2], si); O out(m, n, so); Fftm<C, T, A, fft_inv, R, 1> f(d, sc); params(f, k, d, false, sc);
  for (int pass = 0; pass < 2; ++pass) { std::vector<C> full = herm<T>("x", e, mask), x = cut(full, e, dd); put2(in.v, x); go<R>::run(f, in.v, out.v); near2(out.v, re(dft(e, mask, 1, full, sc)), "multiple real inverse FFT element"); out.outside("FFT writes nothing outside its output"); same2(in.v, x, "FFT leaves its input unchanged"); in.outside("FFT leaves its input unchanged"); } }
#define RO vsip::row
#define CL vsip::col
// @entry c18_n_cc params=0-7
ENTRY(c18_n_cc) { vsipl init; switch (vsx_param()) { case 0: c2c<float, mo<ZR>, mw<ZR>, RO, fft_fwd, by_value>(5); break; case 1: c2c<float, mo<ZR>, mo<ZC>, CL, fft_inv, by_reference>(5); break; case 2: c2c<float, mw<ZC>, mo<ZR>, CL, fft_fwd, by_reference>(5); break; case 3: c2c<float, mo<SPR>, mw<ZR>, RO, fft_inv, by_reference>(4); break; case 4: c2c<double, mw<WR>, mw<WR>, CL, fft_fwd, by_reference>(4); break; case 5: c2c<double, mo<WC>, mw<WC>, RO, fft_inv, by_value>(4); break; case 6: c2c<float, mw<ZR>, mo<SPC>, CL, fft_inv, by_value>(4); break; case 7: c2c<float, mw<ZR>, mw<ZR>, RO, fft_inv, by_reference>(5); break; } }
// @entry c18_n_rc params=0-7
ENTRY(c18_n_rc) { vsipl init; switch (vsx_param()) { case 0: r2c<float, mo<MR>, mw<ZR>, RO, by_value>(5); break; case 1: r2c<float, mo<MR>, mo<ZC>, CL, by_reference>(5); break; case 2: r2c<float, mw<MC>, mo<ZR>, CL, by_reference>(5); break; case 3: r2c<float, mo<MC>, mw<ZC>, RO, by_value>(5); break; case 4: r2c<double, mw<DMR>, mw<WC>, CL, by_reference>(4); break; case 5: r2c<double, mo<DMC>, mw<WR>, RO, by_value>(4); break; case 6: r2c<float, mw<MR>, mo<SPC>, CL, by_value>(4); break; case 7: r2c<float, mw<MR>, mw<ZR>, RO, by_reference>(5); break; } }
// @entry c18_n_cr params=0-7
ENTRY(c18_n_cr) { vsipl init; switch (vsx_param()) { case 0: c2r<float, mo<ZR>, mw<MR>, RO, by_value>(5); break; case 1: c2r<float, mo<ZR>, mo<MC>, CL, by_reference>(5); break; case 2: c2r<float, mw<ZC>, mo<MR>, CL, by_reference>(5); break; case 3: c2r<float, mo<ZC>, mw<MC>, RO, by_value>(5); break; case 4: c2r<double, mw<WR>, mw<DMC>, CL, by_reference>(4); break; case 5: c2r<double, mo<WC>, mw<DMR>, RO, by_value>(4); break; case 6: c2r<float, mw<SPR>, mo<MC>, CL, by_value>(4); break; case 7: c2r<float, mw<ZR>, mw<MR>, RO, by_reference>(5); break; } }
