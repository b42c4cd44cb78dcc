// @property C11
// @bounds 1-D kernels up to 4 coefficients (8 when symmetric), inputs up to 9, decimation 1 to 3; 2-D kernels up to 3x3, inputs up to 4x4; strides -2..2
#include "sig.h"
static length_type outn(support_region_type r, length_type M, length_type N, length_type D) { return r == support_full ? (N + M - 2) / D + 1 : r == support_same ? (N - 1) / D + 1 : (N - M) / D + 1; }
static long shift(support_region_type r, length_type M) { return r == support_full ? 0 : r == support_same ? M / 2 : M - 1; }
template <typename T> std::vector<T> full(symmetry_type s, std::vector<T> const &c) { std::vector<T> h(c); if (s == sym_even_len_odd) for (long i = (long)c.size() - 2; i >= 0; --i) h.push_back(c[i]); if (s == sym_even_len_even) for (long i = (long)c.size() - 1; i >= 0; --i) h.push_back(c[i]); return h; }
template <typename T, typename I, typename O, typename K, symmetry_type S, support_region_type R> void conv1(length_type mmax, length_type nx) {
  length_type m = len("m", 1 + (S == sym_even_len_odd), mmax); length_type M = S == nonsym ? m : S == sym_even_len_odd ? 2 * m - 1 : 2 * m; length_type N = len("n", (int)M, (int)(M + nx)), D = len("d", 1, 3);
  long si = pick("si", -2, 2), so = pick("so", -1, 1); vsx_assume(si != 0 && so != 0); length_type P = outn(R, M, N, D);
  std::vector<T> c = syv<T>("c", m), x = syv<T>("x", N), h = full(S, c); K kk(m, 2); put1(kk.v, c); I in(N, si); put1(in.v, x); O out(P, so * 2);
  Convolution<const_Vector, S, R, T> cv(kk.v, Domain<1>(N), D); CHECK(cv.output_size().size() == P, "convolution output size"); CHECK(cv.kernel_size().size() == M, "convolution kernel size"); CHECK((cv.input_size().size() == N) & (cv.decimation() == D) & (cv.support() == R) & (cv.symmetry() == S) & (cv.filter_order().size() == M), "convolution parameters");
  for (int pass = 0; pass < 2; ++pass) { cv(in.v, out.v);
    for (length_type n = 0; n < P; ++n) { T s = T(); for (length_type k = 0; k < M; ++k) { long i = (long)(n * D) + shift(R, M) - (long)k; if (i >= 0 && i < (long)N) s += h[k] * x[i]; } CHECK(out.v.get(n) == s, "convolution output element"); }
    out.outside("convolution writes nothing outside its output"); for (length_type i = 0; i < N; ++i) CHECK(in.v.get(i) == x[i], "convolution leaves its input unchanged"); for (length_type i = 0; i < m; ++i) CHECK(kk.v.get(i) == c[i], "convolution leaves its coefficients unchanged"); } }
typedef Dense<1, float> D1; typedef Dense<1, complex<float> > Z1; typedef complex<float> z;
template <typename T, typename I, typename O, typename K> void allc(int p, length_type mm, length_type nx) { switch (p) { case 0: conv1<T, I, O, K, nonsym, support_full>(mm, nx); break; case 1: conv1<T, I, O, K, nonsym, support_same>(mm, nx); break; case 2: conv1<T, I, O, K, nonsym, support_min>(mm, nx); break;
  case 3: conv1<T, I, O, K, sym_even_len_odd, support_full>(mm, nx); break; case 4: conv1<T, I, O, K, sym_even_len_odd, support_same>(mm, nx); break; case 5: conv1<T, I, O, K, sym_even_len_odd, support_min>(mm, nx); break; case 6: conv1<T, I, O, K, sym_even_len_even, support_full>(mm, nx); break; case 7: conv1<T, I, O, K, sym_even_len_even, support_same>(mm, nx); break; case 8: conv1<T, I, O, K, sym_even_len_even, support_min>(mm, nx); break; } }
// @entry c11_cf params=0-8
ENTRY(c11_cf) { vsipl init; allc<float, sv<D1>, sv<D1>, dv<D1> >(vsx_param(), 3, 4); }
// @entry c11_cd params=0-8
ENTRY(c11_cd) { vsipl init; allc<double, dv<Dense<1, double> >, cv<double>, sv<Dense<1, double> > >(vsx_param(), 3, 3); }
// @entry c11_cz params=0-8
ENTRY(c11_cz) { vsipl init; allc<z, sv<SP1>, sv<Z1>, dv<Z1> >(vsx_param(), 2, 2); }
// @entry c11_cs params=0-8
ENTRY(c11_cs) { vsipl init; allc<z, cv<z>, sv<SP1>, sv<SP1> >(vsx_param(), 2, 2); }
// two dimensions
template <typename T, typename I, typename O, typename K, symmetry_type S, support_region_type R> void conv2(length_type mm, length_type nx, length_type dm_) {
  length_type mr = len("mr", 1 + (S == sym_even_len_odd), mm), mc = len("mc", 1 + (S == sym_even_len_odd), mm); auto fl = [](length_type m) { return S == nonsym ? m : S == sym_even_len_odd ? 2 * m - 1 : 2 * m; }; length_type Mr = fl(mr), Mc = fl(mc);
  length_type Nr = len("nr", (int)Mr, (int)(Mr + nx)), Nc = len("nc", (int)Mc, (int)(Mc + nx)), D = len("d", 1, dm_); length_type Pr = outn(R, Mr, Nr, D), Pc = outn(R, Mc, Nc, D);
  std::vector<T> c = syv<T>("c", mr * mc), x = syv<T>("x", Nr * Nc); K kk(mr, mc, 1, 2); put2(kk.v, c); I in(Nr, Nc, 1, 2); put2(in.v, x); O out(Pr, Pc, 2, 1);
  auto hc = [&](length_type r, length_type k) { length_type a = r < mr ? r : Mr - 1 - r, b = k < mc ? k : Mc - 1 - k; return c[a * mc + b]; };
  Convolution<const_Matrix, S, R, T> cv(kk.v, Domain<2>(Nr, Nc), D); CHECK((cv.output_size()[0].size() == Pr) & (cv.output_size()[1].size() == Pc), "convolution output size"); CHECK((cv.kernel_size()[0].size() == Mr) & (cv.kernel_size()[1].size() == Mc), "convolution kernel size");
  cv(in.v, out.v);
  for (length_type r = 0; r < Pr; ++r) for (length_type q = 0; q < Pc; ++q) { T s = T(); for (length_type a = 0; a < Mr; ++a) for (length_type b = 0; b < Mc; ++b) { long i = (long)(r * D) + shift(R, Mr) - (long)a, j = (long)(q * D) + shift(R, Mc) - (long)b; if (i >= 0 && i < (long)Nr && j >= 0 && j < (long)Nc) s += hc(a, b) * x[i * Nc + j]; } CHECK(out.v.get(r, q) == s, "convolution output element"); }
  out.outside("convolution writes nothing outside its output"); for (length_type i = 0; i < Nr * Nc; ++i) CHECK(in.v.get(i / Nc, i % Nc) == x[i], "convolution leaves its input unchanged"); }
template <typename T, typename I, typename O, typename K> void allm(int p, length_type mm, length_type ms, length_type nx, length_type dmx) { switch (p) { case 0: conv2<T, I, O, K, nonsym, support_full>(mm, nx, dmx); break; case 1: conv2<T, I, O, K, nonsym, support_same>(mm, nx, dmx); break; case 2: conv2<T, I, O, K, nonsym, support_min>(mm, nx, dmx); break;
  case 3: conv2<T, I, O, K, sym_even_len_odd, support_full>(ms, nx, dmx); break; case 4: conv2<T, I, O, K, sym_even_len_odd, support_same>(ms, nx, dmx); break; case 5: conv2<T, I, O, K, sym_even_len_odd, support_min>(ms, nx, dmx); break; case 6: conv2<T, I, O, K, sym_even_len_even, support_full>(ms, nx, dmx); break; case 7: conv2<T, I, O, K, sym_even_len_even, support_same>(ms, nx, dmx); break; case 8: conv2<T, I, O, K, sym_even_len_even, support_min>(ms, nx, dmx); break; } }
typedef Strided<2, z, Layout<2, R2, dense, split_complex> > SPM;
// @entry c11_mf params=0-8
ENTRY(c11_mf) { vsipl init; allm<float, sm<DR>, sm<DC>, dm<DR> >(vsx_param(), 3, 2, 2, 2); }
// @entry c11_mz params=0-8
ENTRY(c11_mz) { vsipl init; allm<z, sm<SPM>, dm<CC>, sm<CR> >(vsx_param(), 2, 2, 1, 2); }
