// @property C13
// @stub blas.c
// @bounds FIR: up to 4 coefficients (7 or 8 taps when symmetric), input blocks up to 9, decimation 1 to 4, three blocks in sequence, copies taken after any block; IIR: up to 2 biquads, blocks up to 3, three blocks; strides -2..2
#include "sig.h"
template <typename T> std::vector<T> full(symmetry_type s, std::vector<T> const &c) { std::vector<T> h(c); if (s == sym_even_len_odd) for (long i = (long)c.size() - 2; i >= 0; --i) h.push_back(c[i]); if (s == sym_even_len_even) for (long i = (long)c.size() - 1; i >= 0; --i) h.push_back(c[i]); return h; }
// what the filter owes for one more block of input, given everything it was fed since the last reset
template <typename T> struct ref { std::vector<T> h, x; length_type d; bool save;
  template <typename V> length_type feed(std::vector<T> const &b, V out, char const *msg) { if (!save) x.clear(); length_type from = x.size(), o = 0; x.insert(x.end(), b.begin(), b.end());
    for (length_type t = from; t < x.size(); ++t) if (t % d == 0) { T s = T(); for (length_type k = 0; k < h.size() && k <= t; ++k) s += h[k] * x[t - k]; CHECK(out.get(o) == s, msg); ++o; } return o; } };
template <typename T, typename I, typename O, typename K, symmetry_type S, obj_state C> void fir(length_type mmax, length_type nx, length_type dmx) {
  length_type m = len("m", 2, mmax), M = S == nonsym ? m : S == sym_even_len_odd ? 2 * m - 1 : 2 * m, D = len("d", 1, dmx); vsx_assume(M > D); length_type N = len("n", (int)(M - 1), (int)(M - 1 + nx)), P = (N + D - 1) / D; long si = pick("si", -2, 2); vsx_assume(si != 0);
  std::vector<T> c = syv<T>("c", m), h = full(S, c); K kk(m, 2); put1(kk.v, c); typedef Fir<T, S, C> F; F f(kk.v, N, D); ref<T> r{h, {}, D, C == state_save};
  CHECK((f.kernel_size() == M) & (f.filter_order() == M) & (f.input_size() == N) & (f.output_size() == P) & (f.decimation() == D), "FIR parameters"); for (length_type i = 0; i < m; ++i) kk.v.put(i, T(7));
  int cpy = (int)pick("cpy", 0, 2), rst = (int)pick("rst", 0, 3);
  for (int blk = 0; blk < 3; ++blk) { std::vector<T> x = syv<T>("x", N); I in(N, si); put1(in.v, x); O out(P, si > 0 ? -1 : 2); length_type got = f(in.v, out.v); length_type want = r.feed(x, out.v, "FIR output over consecutive blocks is the convolution of the whole stream"); CHECK(got == want, "FIR reports the number of outputs it produced"); out.outside("FIR writes nothing outside its output"); for (length_type i = 0; i < N; ++i) CHECK(in.v.get(i) == x[i], "FIR leaves its input unchanged");
    if (blk + 1 == rst) { f.reset(); r.x.clear(); }
    if (cpy == 1 && blk == 0) { F g(f); ref<T> q(r); std::vector<T> y = syv<T>("y", N); put1(in.v, y); length_type e = g(in.v, out.v); CHECK(e == q.feed(y, out.v, "a copied FIR continues from the copied state"), "a copied FIR reports its outputs"); put1(in.v, x); }
    if (cpy == 2 && blk == 1) { std::vector<T> c2(m, T(1)); K k2(m, 2); put1(k2.v, c2); F g(k2.v, N, D); g = f; ref<T> q(r); std::vector<T> y = syv<T>("y", N); put1(in.v, y); length_type e = g(in.v, out.v); CHECK(e == q.feed(y, out.v, "an assigned FIR continues from the assigned state"), "an assigned FIR reports its outputs"); put1(in.v, x); } } }
typedef Dense<1, float> D1; typedef Dense<1, complex<float> > Z1; typedef complex<float> z;
template <typename T, typename I, typename O, typename K> void all(int p, length_type mm, length_type nx, length_type dm) { switch (p) { case 0: fir<T, I, O, K, nonsym, state_save>(mm, nx, dm); break; case 1: fir<T, I, O, K, sym_even_len_odd, state_save>(mm, nx, dm); break; case 2: fir<T, I, O, K, sym_even_len_even, state_save>(mm, nx, dm); break; case 3: fir<T, I, O, K, nonsym, state_no_save>(mm, nx, dm); break; case 4: fir<T, I, O, K, sym_even_len_odd, state_no_save>(mm, nx, dm); break; case 5: fir<T, I, O, K, sym_even_len_even, state_no_save>(mm, nx, dm); break; } }
// @entry c13_ff params=0-5
ENTRY(c13_ff) { vsipl init; all<float, sv<D1>, sv<D1>, dv<D1> >(vsx_param(), 4, 3, 3); }
// @entry c13_fd params=0-5
ENTRY(c13_fd) { vsipl init; all<double, dv<Dense<1, double> >, cv<double>, sv<Dense<1, double> > >(vsx_param(), 3, 3, 4); }
// @entry c13_fz params=0-5
ENTRY(c13_fz) { vsipl init; all<z, sv<SP1>, cv<z>, dv<Z1> >(vsx_param(), 3, 2, 2); }
template <typename T, typename I, typename O, obj_state C> void iir() { length_type s = len("s", 1, 2), N = len("n", 1, 3); long si = pick("si", -2, 2); vsx_assume(si != 0); std::vector<T> b = syv<T>("b", 3 * s), a = syv<T>("a", 2 * s); Matrix<T, Dense<2, T, col2_type> > mb(s, 3); Matrix<T> ma(s, 2); put2(mb, b); put2(ma, a);
  typedef Iir<T, C> F; F f(mb, ma, N); CHECK((f.kernel_size() == 2 * s) & (f.filter_order() == 2 * s) & (f.input_size() == N) & (f.output_size() == N), "IIR parameters"); mb = T(3); ma = T(5); std::vector<T> w(2 * s, T());
  auto run = [&](F &g, std::vector<T> &st, char const *nm, char const *msg) { std::vector<T> x = syv<T>(nm, N); I in(N, si); put1(in.v, x); O out(N, si > 0 ? -1 : 2); g(in.v, out.v); if (C == state_no_save) st.assign(2 * s, T());
    for (length_type i = 0; i < N; ++i) { T v = x[i]; for (length_type k = 0; k < s; ++k) { T w0 = v - a[2 * k] * st[2 * k] - a[2 * k + 1] * st[2 * k + 1]; v = b[3 * k] * w0 + b[3 * k + 1] * st[2 * k] + b[3 * k + 2] * st[2 * k + 1]; st[2 * k + 1] = st[2 * k]; st[2 * k] = w0; } CHECK(out.v.get(i) == v, msg); CHECK(in.v.get(i) == x[i], "IIR leaves its input unchanged"); } out.outside("IIR writes nothing outside its output"); };
  int cpy = (int)pick("cpy", 0, 2), rst = (int)pick("rst", 0, 2);
  run(f, w, "x", "IIR output over consecutive blocks is the cascade of its second-order sections"); if (rst == 1) { f.reset(); w.assign(2 * s, T()); }
  if (cpy == 1) { F g(f); auto q = w; run(g, q, "y", "a copied IIR continues from the copied state"); } if (cpy == 2) { Matrix<T> zb(s, 3, T(1)), za(s, 2, T(1)); F g(zb, za, N); g = f; auto q = w; run(g, q, "y", "an assigned IIR continues from the assigned state"); }
  run(f, w, "x", "IIR output over consecutive blocks is the cascade of its second-order sections"); if (rst == 2) { f.reset(); w.assign(2 * s, T()); } run(f, w, "x", "IIR output over consecutive blocks is the cascade of its second-order sections"); }
// @entry c13_iir params=0-3
ENTRY(c13_iir) { vsipl init; switch (vsx_param()) { case 0: iir<float, sv<D1>, sv<D1>, state_save>(); break; case 1: iir<float, sv<D1>, cv<float>, state_no_save>(); break; case 2: iir<double, cv<double>, dv<Dense<1, double> >, state_save>(); break; case 3: iir<z, sv<SP1>, sv<Z1>, state_save>(); break; } }
