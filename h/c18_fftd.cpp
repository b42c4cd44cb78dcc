// @property C18
// @stub fftw.c
// @bounds distributed multiple transforms: 2 and 3 processors, up to 4 rows or columns of 2 or 4 points
#include <vsip/signal.hpp>
#include "par.h"
#include "fft.h"
template <typename F> void rmap(int k, int np, F f) { switch (k) { case 0: f(Map<>(Block_dist(np), Block_dist(1))); break; case 1: f(Map<Cyclic_dist, Block_dist>(Cyclic_dist(np), Block_dist(1))); break; case 2: f(Map<Block_dist, Whole_dist>(Block_dist(np), Whole_dist())); break; case 3: f(Map<>(pvec({1, 0}), Block_dist(2), Block_dist(1))); break; case 4: f(Map<>(Block_dist(1), Block_dist(1))); break; case 5: f(Replicated_map<2>()); break; } }
template <typename F> void cmap(int k, int np, F f) { switch (k) { case 0: f(Map<>(Block_dist(1), Block_dist(np))); break; case 1: f(Map<Block_dist, Cyclic_dist>(Block_dist(1), Cyclic_dist(np))); break; case 2: f(Map<>(pvec({1, 0}), Block_dist(1), Block_dist(2))); break; case 3: f(Replicated_map<2>()); break; } }
template <typename C, int A, typename O, typename M> void body(int R, M const &mp, long m, long n, std::vector<C> const &x, float sc) { Domain<2> d(m, n); xt e(1, m, n); int mask = A == vsip::row ? 4 : 2; auto in = mkp<C, O>(d, mp); auto out = mkp<C, O>(d, mp); fill(in, d, x.data()); std::vector<C> z(m * n, C(7)), r = dft(e, mask, -1, x, sc); fill(out, d, z.data());
  auto chk = [&](auto v, std::vector<C> const &y, char const *msg) { held<2>(v, d, [&](auto l, Index<2> i, long g) { CHECK(nr((C)eget(l, i), y[g]), msg); }); };
  if (R == 0) { Fftm<C, C, A, fft_fwd, by_reference, 1> f(d, sc); f(in, out); chk(out, r, "distributed multiple FFT element"); chk(in, x, "FFT leaves its input unchanged"); f(in); chk(in, r, "distributed multiple FFT element (in place)"); }
  else { Fftm<C, C, A, fft_fwd, by_value, 1> f(d, sc); out = f(in); chk(out, r, "distributed multiple FFT element"); chk(in, x, "FFT leaves its input unchanged"); } }
template <int A, typename O> void dist(int np, int k, int R) { long q = pick("q", 1, 4), l = 2 * pick("l", 1, 2), m = A == vsip::row ? q : l, n = A == vsip::row ? l : q; float sc = pick("scale", 1, 2); std::vector<z> x = syv<z>("x", m * n); ranks(np, [&](int) { if (A == vsip::row) rmap(k, np, [&](auto mp) { body<z, A, O>(R, mp, m, n, x, sc); }); else cmap(k, np, [&](auto mp) { body<z, A, O>(R, mp, m, n, x, sc); }); }); }
// @entry c18_dr params=0-11
ENTRY(c18_dr) { int p = vsx_param(); dist<vsip::row, row2_type>(p % 6 == 3 ? 2 : 3, p % 6, p / 6); }
// @entry c18_dc params=0-7
ENTRY(c18_dc) { int p = vsx_param(); dist<vsip::col, col2_type>(2, p % 4, p / 4); }
// real to half spectrum and back, by reference
template <int A, typename O, typename M> void bodyh(M const &mp, long m, long n, std::vector<float> const &x) { xt e(1, m, n), h = half(e, A == vsip::row ? 2 : 1); Domain<2> d(m, n), k(h.n[1], h.n[2]); auto in = mkp<float, O>(d, mp); auto out = mkp<z, O>(k, mp); auto back = mkp<float, O>(d, mp); fill(in, d, x.data());
  std::vector<z> r = cut(dft(e, A == vsip::row ? 4 : 2, -1, cx(x), 1), e, A == vsip::row ? 2 : 1); Fftm<float, z, A, fft_fwd, by_reference, 1> f(d, 1); Fftm<z, float, A, fft_inv, by_reference, 1> g(d, 1.f / (A == vsip::row ? n : m)); f(in, out); held<2>(out, k, [&](auto l, Index<2> i, long q) { CHECK(nr((z)eget(l, i), r[q]), "distributed multiple real FFT element"); }); g(out, back); held<2>(back, d, [&](auto l, Index<2> i, long q) { CHECK(nr((float)eget(l, i), x[q]), "distributed inverse of a multiple real FFT"); }); }
template <int A, typename O> void disth(int np, int k) { long q = pick("q", 1, 4), l = 2 * pick("l", 1, 2), m = A == vsip::row ? q : l, n = A == vsip::row ? l : q; std::vector<float> x = syv<float>("x", m * n); ranks(np, [&](int) { if (A == vsip::row) rmap(k, np, [&](auto mp) { bodyh<A, O>(mp, m, n, x); }); else cmap(k, np, [&](auto mp) { bodyh<A, O>(mp, m, n, x); }); }); }
// @entry c18_dh params=0-9
ENTRY(c18_dh) { int p = vsx_param(); if (p < 6) disth<vsip::row, row2_type>(p == 3 ? 2 : 3, p); else disth<vsip::col, col2_type>(2, p - 6); }
