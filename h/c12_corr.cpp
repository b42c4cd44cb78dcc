// @property C12
// @bounds 1-D references up to 4 elements, inputs up to 8; 2-D references up to 3x3, inputs up to 4x4; strides -2..2; biased and unbiased
#include "sig.h"
static length_type outn(support_region_type r, length_type M, length_type N) { return r == support_full ? N + M - 1 : r == support_same ? N : N - M + 1; }
static long shift(support_region_type r, length_type M) { return r == support_full ? M - 1 : r == support_same ? M / 2 : 0; }
static float cj(float x) { return x; } static double cj(double x) { return x; } static complex<float> cj(complex<float> x) { return complex<float>(x.real(), -x.imag()); }
// number of overlapping elements; for 'same' in one dimension the count C-VSIPL defines
static long over(support_region_type r, long M, long N, long n) { long c = 0; for (long k = 0; k < M; ++k) { long i = n + k - shift(r, M); c += i >= 0 && i < N; } return c; }
static long scale1(support_region_type r, long M, long N, long n) { if (r == support_same && n >= N - M / 2) return N - 1 + (M + 1) / 2 - n; return over(r, M, N, n); }
template <typename T, typename I, typename O, typename K, support_region_type R> void corr1(length_type mmax, length_type nx) {
  length_type M = len("m", 1, mmax), N = len("n", (int)M, (int)(M + nx)), P = outn(R, M, N); long si = pick("si", -2, 2), so = pick("so", -1, 1); vsx_assume(si != 0 && so != 0);
  std::vector<T> c = syv<T>("c", M), x = syv<T>("x", N); K kk(M, -2); put1(kk.v, c); I in(N, si); put1(in.v, x); O out(P, so * 2);
  Correlation<const_Vector, R, T> cr((Domain<1>(M)), Domain<1>(N)); CHECK((cr.output_size().size() == P) & (cr.reference_size().size() == M) & (cr.input_size().size() == N) & (cr.support() == R), "correlation parameters");
  for (int b = 0; b < 2; ++b) { cr(b ? unbiased : biased, kk.v, in.v, out.v);
    for (length_type n = 0; n < P; ++n) { T s = T(); for (length_type k = 0; k < M; ++k) { long i = (long)n + (long)k - shift(R, M); if (i >= 0 && i < (long)N) s += c[k] * cj(x[i]); } if (b) s /= T(scale1(R, M, N, n)); CHECK(out.v.get(n) == s, b ? "unbiased correlation element" : "biased correlation element"); }
    out.outside("correlation writes nothing outside its output"); for (length_type i = 0; i < N; ++i) CHECK(in.v.get(i) == x[i], "correlation leaves its input unchanged"); for (length_type i = 0; i < M; ++i) CHECK(kk.v.get(i) == c[i], "correlation leaves its reference unchanged"); } }
typedef Dense<1, float> D1; typedef Dense<1, complex<float> > Z1; typedef complex<float> z;
template <typename T, typename I, typename O, typename K> void all1(int p, length_type mm, length_type nx) { switch (p) { case 0: corr1<T, I, O, K, support_full>(mm, nx); break; case 1: corr1<T, I, O, K, support_same>(mm, nx); break; case 2: corr1<T, I, O, K, support_min>(mm, nx); break; } }
// @entry c12_f params=0-2
ENTRY(c12_f) { vsipl init; all1<float, sv<D1>, sv<D1>, dv<D1> >(vsx_param(), 4, 4); }
// @entry c12_d params=0-2
ENTRY(c12_d) { vsipl init; all1<double, dv<Dense<1, double> >, cv<double>, sv<Dense<1, double> > >(vsx_param(), 4, 3); }
// @entry c12_z params=0-2
ENTRY(c12_z) { vsipl init; all1<z, sv<SP1>, sv<Z1>, dv<Z1> >(vsx_param(), 3, 2); }
// @entry c12_s params=0-2
ENTRY(c12_s) { vsipl init; all1<z, cv<z>, sv<SP1>, sv<SP1> >(vsx_param(), 3, 2); }
template <typename T, typename I, typename O, typename K, support_region_type R> void corr2(length_type mm, length_type nx) {
  length_type Mr = len("mr", 1, mm), Mc = len("mc", 1, mm), Nr = len("nr", (int)Mr, (int)(Mr + nx)), Nc = len("nc", (int)Mc, (int)(Mc + nx)), Pr = outn(R, Mr, Nr), Pc = outn(R, Mc, Nc);
  std::vector<T> c = syv<T>("c", Mr * Mc), x = syv<T>("x", Nr * Nc); K kk(Mr, Mc, 1, 2); put2(kk.v, c); I in(Nr, Nc, 1, 2); put2(in.v, x); O out(Pr, Pc, 2, 1);
  Correlation<const_Matrix, R, T> cr(Domain<2>(Mr, Mc), Domain<2>(Nr, Nc)); CHECK((cr.output_size()[0].size() == Pr) & (cr.output_size()[1].size() == Pc), "correlation output size");
  for (int bi = 0; bi < 2; ++bi) { cr(bi ? unbiased : biased, kk.v, in.v, out.v);
    for (length_type r = 0; r < Pr; ++r) for (length_type q = 0; q < Pc; ++q) { T s = T(); for (length_type a = 0; a < Mr; ++a) for (length_type b = 0; b < Mc; ++b) { long i = (long)(r + a) - shift(R, Mr), j = (long)(q + b) - shift(R, Mc); if (i >= 0 && i < (long)Nr && j >= 0 && j < (long)Nc) s += c[a * Mc + b] * cj(x[i * Nc + j]); } if (bi) s /= T(over(R, Mr, Nr, r)) * T(over(R, Mc, Nc, q)); CHECK(out.v.get(r, q) == s, bi ? "unbiased correlation element" : "biased correlation element"); }
    out.outside("correlation writes nothing outside its output"); for (length_type i = 0; i < Nr * Nc; ++i) CHECK(in.v.get(i / Nc, i % Nc) == x[i], "correlation leaves its input unchanged"); } }
template <typename T, typename I, typename O, typename K> void all2(int p, length_type mm, length_type nx) { switch (p) { case 0: corr2<T, I, O, K, support_full>(mm, nx); break; case 1: corr2<T, I, O, K, support_same>(mm, nx); break; case 2: corr2<T, I, O, K, support_min>(mm, nx); break; } }
typedef Strided<2, z, Layout<2, R2, dense, split_complex> > SPM;
// @entry c12_mf params=0-2
ENTRY(c12_mf) { vsipl init; all2<float, sm<DR>, sm<DC>, dm<DR> >(vsx_param(), 3, 2); }
// @entry c12_mz params=0-2
ENTRY(c12_mz) { vsipl init; all2<z, sm<SPM>, dm<CC>, sm<CR> >(vsx_param(), 2, 1); }
