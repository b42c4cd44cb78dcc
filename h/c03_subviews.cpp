// @property C03
// @bounds matrices up to 5x4, tensors up to 3x3x3, vectors up to 9; all sub-domains with |stride| <= 3, all rows, columns, diagonals, transposes and second-level subviews; probed elements symbolic
#include "sub.h"
// a 1-D subview of a matrix: element k is base element (i0+k*di, j0+k*dj)
template <typename B, typename V> void as_vector(base2<B> &b, V v, long len, long i0, long di, long j0, long dj) {
  typedef typename B::value_type T;
  CHECK((long)v.size() == len && (long)v.size(0) == len && (long)v.length() == len, "a 1-D subview has the expected length");
  if (!len) return;
  long k = vsx_int("k", 0, len - 1), p = vsx_int("p", 0, b.m - 1), q = vsx_int("q", 0, b.n - 1); T x = sy<T>::mk("x");
  CHECK(v.get(k) == b.v.get(i0 + k * di, j0 + k * dj), "reading a subview element reads the aliased element");
  Vector<T> c(len); c = v; CHECK(c.get(k) == b.v.get(i0 + k * di, j0 + k * dj), "copying a subview copies the aliased elements");
  v.put(k, x);
  bool hit = (p == i0 + k * di) & (q == j0 + k * dj);
  CHECK(b.v.get(p, q) == (hit ? x : b.bg(p, q)), "writing a subview element writes the aliased element and no other");
  Vector<T> w(len); for (long e = 0; e < len; ++e) w.put(e, sy<T>::mk("w"));
  v = w;
  bool in = false; T ex = b.bg(p, q); for (long e = 0; e < len; ++e) if ((p == i0 + e * di) & (q == j0 + e * dj)) { ex = w.get(e); in = true; }
  CHECK(b.v.get(p, q) == ex, "assigning a subview writes exactly the aliased elements");
}
template <typename B> void t_row(bool viaT) { long m = pick("m", 1, 4), n = pick("n", 1, 4); base2<B> b(m, n); long i = vsx_int("i", 0, m - 1); if (viaT) as_vector(b, b.v.transpose().col(i), n, i, 0, 0, 1); else as_vector(b, b.v.row(i), n, i, 0, 0, 1); }
template <typename B> void t_col(bool viaT) { long m = pick("m", 1, 4), n = pick("n", 1, 4); base2<B> b(m, n); long j = vsx_int("j", 0, n - 1); if (viaT) as_vector(b, b.v.transpose().row(j), m, 0, 1, j, 0); else as_vector(b, b.v.col(j), m, 0, 1, j, 0); }
template <typename B> void t_diag() { long m = pick("m", 1, 4), n = pick("n", 1, 4); base2<B> b(m, n); long o = pick("o", -3, 3); vsx_assume(o < n && -o < m); long len = o >= 0 ? std::min(m, n - o) : std::min(m + o, n); as_vector(b, b.v.diag(o), len, o >= 0 ? 0 : -o, 1, o >= 0 ? o : 0, 1); }
struct dm { long i, s, n; }; static dm pdom(char const *a, char const *b, char const *c, long ext, long maxn) { dm d; d.n = pick(c, 1, maxn); d.s = pick(b, -2, 3); d.i = vsx_int(a, 0, ext - 1); vsx_assume(d.s != 0); vsx_assume(d.i + d.s * (d.n - 1) >= 0 && d.i + d.s * (d.n - 1) < ext); return d; }
template <typename B> void rowdom() { long m = pick("m", 1, 3), n = 5; base2<B> b(m, n); long i = vsx_int("i", 0, m - 1); dm d = pdom("a", "s", "l", n, 3); as_vector(b, b.v.row(i)(Domain<1>(d.i, d.s, d.n)), d.n, i, 0, d.i, d.s); }
template <typename B> void coldom() { long n = pick("n", 1, 3), m = 5; base2<B> b(m, n); long j = vsx_int("j", 0, n - 1); dm d = pdom("a", "s", "l", m, 3); as_vector(b, b.v.col(j)(Domain<1>(d.i, d.s, d.n)), d.n, d.i, d.s, j, 0); }
// @entry c03_row params=0-9
ENTRY(c03_row) { vsipl init; switch (vsx_param()) { case 0: t_row<DR>(0); break; case 1: t_row<DC>(0); break; case 2: t_row<SR>(0); break; case 3: t_row<SC>(0); break; case 4: t_row<SPR>(0); break; case 5: t_row<CC>(0); break; case 6: t_row<DR>(1); break; case 7: t_row<DC>(1); break; case 8: t_row<SPC>(1); break; case 9: t_row<CR>(1); break; } }
// @entry c03_col params=0-9
ENTRY(c03_col) { vsipl init; switch (vsx_param()) { case 0: t_col<DR>(0); break; case 1: t_col<DC>(0); break; case 2: t_col<SR>(0); break; case 3: t_col<SC>(0); break; case 4: t_col<SPR>(0); break; case 5: t_col<CC>(0); break; case 6: t_col<DR>(1); break; case 7: t_col<DC>(1); break; case 8: t_col<SPC>(1); break; case 9: t_col<CR>(1); break; } }
// @entry c03_diag params=0-5
ENTRY(c03_diag) { vsipl init; switch (vsx_param()) { case 0: t_diag<DR>(); break; case 1: t_diag<DC>(); break; case 2: t_diag<SR>(); break; case 3: t_diag<SC>(); break; case 4: t_diag<SPR>(); break; case 5: t_diag<CC>(); break; } }
// @entry c03_rowdom params=0-3 heavy=3
ENTRY(c03_rowdom) { vsipl init; switch (vsx_param()) { case 0: rowdom<DR>(); break; case 1: rowdom<DC>(); break; case 2: rowdom<SC>(); break; case 3: rowdom<SPR>(); break; } }
// @entry c03_coldom params=0-3 heavy=3
ENTRY(c03_coldom) { vsipl init; switch (vsx_param()) { case 0: coldom<DR>(); break; case 1: coldom<DC>(); break; case 2: coldom<SR>(); break; case 3: coldom<SPC>(); break; } }
// 2-D subviews: element (k,l) is base element (f0+k*s0, f1+l*s1), or transposed
template <typename B, typename V> void as_matrix(base2<B> &b, V v, long r, long c, long i0, long di, long j0, long dj, bool tr) {
  typedef typename B::value_type T;
  CHECK((long)v.size(0) == r && (long)v.size(1) == c && (long)v.size() == r * c, "a 2-D subview has the expected extents");
  long k = vsx_int("k", 0, r - 1), l = vsx_int("l", 0, c - 1), p = vsx_int("p", 0, b.m - 1), q = vsx_int("q", 0, b.n - 1); T x = sy<T>::mk("x");
  long bi = tr ? i0 + l * di : i0 + k * di, bj = tr ? j0 + k * dj : j0 + l * dj;
  CHECK(v.get(k, l) == b.v.get(bi, bj), "reading a subview element reads the aliased element");
  Matrix<T> cp(r, c); cp = v; CHECK(cp.get(k, l) == b.v.get(bi, bj), "copying a subview copies the aliased elements");
  v.put(k, l, x); CHECK(b.v.get(p, q) == ((p == bi) & (q == bj) ? x : b.bg(p, q)), "writing a subview element writes the aliased element and no other");
  Matrix<T> w(r, c); for (long e = 0; e < r; ++e) for (long f = 0; f < c; ++f) w.put(e, f, mkv<T>::at(-1000 - e * 10 - f)); v = w;
  T ex = b.bg(p, q); for (long e = 0; e < r; ++e) for (long f = 0; f < c; ++f) { long y = tr ? i0 + f * di : i0 + e * di, z = tr ? j0 + e * dj : j0 + f * dj; if ((p == y) & (q == z)) ex = w.get(e, f); }
  CHECK(b.v.get(p, q) == ex, "assigning a subview writes exactly the aliased elements");
}
template <typename B> void sub(int kind) {
  long m = 4, n = 4; base2<B> b(m, n);
  long r = pick("r", 1, 2), c = pick("c", 1, 2), s0 = pick("s0", -1, 2), s1 = pick("s1", -1, 2); vsx_assume(s0 != 0 && s1 != 0); long i0 = vsx_int("i0", 0, 3), j0 = vsx_int("j0", 0, 3);
  vsx_assume(i0 + s0 * (r - 1) >= 0 && i0 + s0 * (r - 1) < m && j0 + s1 * (c - 1) >= 0 && j0 + s1 * (c - 1) < n);
  Domain<2> d(Domain<1>(i0, s0, r), Domain<1>(j0, s1, c));
  if (kind == 0) as_matrix(b, b.v(d), r, c, i0, s0, j0, s1, false); else if (kind == 1) as_matrix(b, b.v(d).transpose(), c, r, i0, s0, j0, s1, true);
  else as_matrix(b, b.v.transpose()(Domain<2>(Domain<1>(j0, s1, c), Domain<1>(i0, s0, r))), c, r, i0, s0, j0, s1, true);
}
// @entry c03_sub params=0-5 heavy=8
ENTRY(c03_sub) { vsipl init; switch (vsx_param()) { case 0: sub<DR>(0); break; case 1: sub<DC>(0); break; case 2: sub<SR>(1); break; case 3: sub<SC>(0); break; case 4: sub<SPR>(0); break; case 5: sub<DC>(2); break; } }
// @entry c03_sub_more params=0-5 tier=thorough
ENTRY(c03_sub_more) { vsipl init; switch (vsx_param()) { case 0: sub<DR>(1); break; case 1: sub<DR>(2); break; case 2: sub<SC>(2); break; case 3: sub<SPC>(1); break; case 4: sub<CC>(0); break; case 5: sub<SPR>(2); break; } }
template <typename B> void transp() { long m = pick("m", 1, 4), n = pick("n", 1, 4); base2<B> b(m, n); as_matrix(b, b.v.transpose(), n, m, 0, 1, 0, 1, true); }
// @entry c03_transpose params=0-5
ENTRY(c03_transpose) { vsipl init; switch (vsx_param()) { case 0: transp<DR>(); break; case 1: transp<DC>(); break; case 2: transp<SR>(); break; case 3: transp<SC>(); break; case 4: transp<SPR>(); break; case 5: transp<CC>(); break; } }
// vectors: subview of subview
template <typename B> void vsub() {
  typedef typename B::value_type T; long n = 9; Vector<T, B> v(n); for (long i = 0; i < n; ++i) v.put(i, mkv<T>::at(i));
  dm d = pdom("a", "s", "l", n, 4); dm e; e.n = pick("m", 1, 3); e.s = pick("t", -1, 2); e.i = vsx_int("b", 0, 3); vsx_assume(e.i < d.n && e.i + e.s * (e.n - 1) >= 0 && e.i + e.s * (e.n - 1) < d.n && e.s != 0);
  auto w = v(Domain<1>(d.i, d.s, d.n)); auto u = w(Domain<1>(e.i, e.s, e.n)); long k = vsx_int("k", 0, e.n - 1), p = vsx_int("p", 0, n - 1); long pos = d.i + d.s * (e.i + e.s * k);
  CHECK((long)u.size() == e.n, "a subview of a subview has the expected length"); CHECK(u.get(k) == v.get(pos), "a subview of a subview reads the composed position");
  T x = sy<T>::mk("x"); u.put(k, x); CHECK(v.get(p) == (p == pos ? x : mkv<T>::at(p)), "a subview of a subview writes the composed position only");
  u = T(77); bool in = false; for (long q = 0; q < e.n; ++q) in |= p == d.i + d.s * (e.i + e.s * q);
  CHECK(v.get(p) == (in ? T(77) : mkv<T>::at(p)), "filling a subview writes exactly the aliased elements");
}
// @entry c03_vsub params=0-3 heavy=8
ENTRY(c03_vsub) { vsipl init; switch (vsx_param()) { case 0: vsub<Dense<1, float> >(); break; case 1: vsub<Dense<1, complex<float> > >(); break; case 2: vsub<Strided<1, complex<float>, Layout<1, row1_type, dense, split_complex> > >(); break; case 3: vsub<Dense<1, int> >(); break; } }
// real and imaginary views
template <typename B> void comp() {
  typedef typename B::value_type T; long m = pick("m", 1, 3), n = pick("n", 1, 3); base2<B> b(m, n); long i = vsx_int("i", 0, m - 1), j = vsx_int("j", 0, n - 1), p = vsx_int("p", 0, m - 1), q = vsx_int("q", 0, n - 1);
  auto re = b.v.real(); auto im = b.v.imag(); CHECK((long)re.size(0) == m && (long)im.size(1) == n, "component views have the extents of the complex view");
  CHECK(re.get(i, j) == b.v.get(i, j).real() && im.get(i, j) == b.v.get(i, j).imag(), "component views read the components");
  float x = vsx_f32("x", -100, 100), y = vsx_f32("y", -100, 100); re.put(i, j, x); T c = b.v.get(p, q); bool h = (p == i) & (q == j);
  CHECK(c.real() == (h ? x : b.bg(p, q).real()) && c.imag() == b.bg(p, q).imag(), "writing a real part leaves everything else alone");
  im.put(i, j, y); c = b.v.get(p, q); CHECK(c.real() == (h ? x : b.bg(p, q).real()) && c.imag() == (h ? y : b.bg(p, q).imag()), "writing an imaginary part leaves everything else alone");
  Matrix<float> w(m, n); for (long e = 0; e < m; ++e) for (long f = 0; f < n; ++f) w.put(e, f, 500 + e * 10 + f);
  re = w; c = b.v.get(p, q); CHECK(c.real() == 500 + p * 10 + q && c.imag() == (h ? y : b.bg(p, q).imag()), "assigning the real view writes only real parts");
  im.row(i) = 3.f; c = b.v.get(p, q); CHECK(c.real() == 500 + p * 10 + q && c.imag() == (p == i ? 3.f : b.bg(p, q).imag()) , "assigning a row of the imaginary view writes only that row");
}
// @entry c03_component params=0-3 heavy=2
ENTRY(c03_component) { vsipl init; switch (vsx_param()) { case 0: comp<CR>(); break; case 1: comp<CC>(); break; case 2: comp<SPR>(); break; case 3: comp<SPC>(); break; } }
// tensors
typedef tuple<0,2,1> O021; typedef tuple<1,0,2> O102; typedef tuple<1,2,0> O120; typedef tuple<2,0,1> O201; typedef tuple<2,1,0> O210;
template <typename B> struct base3 { typedef typename B::value_type T; long m, n, o; Tensor<T, B> v; base3(long m_, long n_, long o_) : m(m_), n(n_), o(o_), v(m_, n_, o_) { for (long i = 0; i < m; ++i) for (long j = 0; j < n; ++j) for (long k = 0; k < o; ++k) v.put(i, j, k, bg(i, j, k)); } T bg(long i, long j, long k) const { return mkv<T>::at(100 * i + 10 * j + k); } };
// a matrix view of a tensor with one index fixed
template <typename B, typename V> void slice(base3<B> &b, V v, int fixed, long f, long a0, long as, long an, long c0, long cs, long cn) {
  typedef typename B::value_type T; CHECK((long)v.size(0) == an && (long)v.size(1) == cn, "a tensor slice has the expected extents");
  long k = vsx_int("k", 0, an - 1), l = vsx_int("l", 0, cn - 1); T x = sy<T>::mk("x"); long P[3] = {vsx_int("p", 0, b.m - 1), vsx_int("q", 0, b.n - 1), vsx_int("r", 0, b.o - 1)}; int u = fixed == 0 ? 1 : 0, w = fixed == 2 ? 1 : 2;
  long I[3]; I[fixed] = f; I[u] = a0 + as * k; I[w] = c0 + cs * l; CHECK(v.get(k, l) == b.bg(I[0], I[1], I[2]), "reading a tensor slice reads the aliased element");
  v.put(k, l, x); bool hit = (P[0] == I[0]) & (P[1] == I[1]) & (P[2] == I[2]); CHECK(b.v.get(P[0], P[1], P[2]) == (hit ? x : b.bg(P[0], P[1], P[2])), "writing a tensor slice writes the aliased element only");
  v = T(88); long da = P[u] - a0, dc = P[w] - c0; bool in = P[fixed] == f, ia = false, ic = false; for (long e = 0; e < an; ++e) ia |= da == as * e; for (long e = 0; e < cn; ++e) ic |= dc == cs * e;
  CHECK(b.v.get(P[0], P[1], P[2]) == (in & ia & ic ? T(88) : b.bg(P[0], P[1], P[2])), "filling a tensor slice writes exactly the aliased elements");
}
template <typename B, typename V> void fiber(base3<B> &b, V v, int free, long f, long g, long a0, long as, long an) {
  typedef typename B::value_type T; CHECK((long)v.size() == an, "a tensor fibre has the expected length"); long k = vsx_int("k", 0, an - 1); T x = sy<T>::mk("x"); long P[3] = {vsx_int("p", 0, b.m - 1), vsx_int("q", 0, b.n - 1), vsx_int("r", 0, b.o - 1)}; int u = free == 0 ? 1 : 0, w = free == 2 ? 1 : 2;
  long I[3]; I[free] = a0 + as * k; I[u] = f; I[w] = g; CHECK(v.get(k) == b.bg(I[0], I[1], I[2]), "reading a tensor fibre reads the aliased element"); v.put(k, x); bool hit = (P[0] == I[0]) & (P[1] == I[1]) & (P[2] == I[2]);
  CHECK(b.v.get(P[0], P[1], P[2]) == (hit ? x : b.bg(P[0], P[1], P[2])), "writing a tensor fibre writes the aliased element only"); v = T(88); bool ia = false; for (long e = 0; e < an; ++e) ia |= P[free] == a0 + as * e;
  CHECK(b.v.get(P[0], P[1], P[2]) == (ia & (P[u] == f) & (P[w] == g) ? T(88) : b.bg(P[0], P[1], P[2])), "filling a tensor fibre writes exactly the aliased elements"); }
template <typename B> void tens(int kind) {
  long E[3] = {pick("m", 1, 3), pick("n", 2, 3), pick("o", 2, 3)}; base3<B> b(E[0], E[1], E[2]); long f, g;
  switch (kind) {
  case 0: f = vsx_int("f", 0, E[0] - 1); slice(b, b.v(f, whole_domain, whole_domain), 0, f, 0, 1, E[1], 0, 1, E[2]); break;
  case 1: f = vsx_int("f", 0, E[1] - 1); slice(b, b.v(whole_domain, f, whole_domain), 1, f, 0, 1, E[0], 0, 1, E[2]); break;
  case 2: f = vsx_int("f", 0, E[2] - 1); slice(b, b.v(whole_domain, whole_domain, f), 2, f, 0, 1, E[0], 0, 1, E[1]); break;
  case 3: f = vsx_int("f", 0, E[1] - 1); g = vsx_int("g", 0, E[2] - 1); fiber(b, b.v(whole_domain, f, g), 0, f, g, 0, 1, E[0]); break;
  case 4: f = vsx_int("f", 0, E[0] - 1); g = vsx_int("g", 0, E[2] - 1); fiber(b, b.v(f, whole_domain, g), 1, f, g, 0, 1, E[1]); break;
  case 5: f = vsx_int("f", 0, E[0] - 1); g = vsx_int("g", 0, E[1] - 1); fiber(b, b.v(f, g, whole_domain), 2, f, g, 0, 1, E[2]); break;
  case 6: f = vsx_int("f", 0, E[0] - 1); slice(b, b.v(f, Domain<1>(1, -1, 2), Domain<1>(0, 1, 2)), 0, f, 1, -1, 2, 0, 1, 2); break;
  case 7: f = vsx_int("f", 0, E[1] - 1); slice(b, b.v(Domain<1>(0, 1, 1), f, Domain<1>(1, -1, 2)), 1, f, 0, 1, 1, 1, -1, 2); break;
  case 8: f = vsx_int("f", 0, E[2] - 1); slice(b, b.v(Domain<1>(0, 1, 1), Domain<1>(E[1] - 1, -1, 2), f), 2, f, 0, 1, 1, E[1] - 1, -1, 2); break;
  case 9: f = vsx_int("f", 0, E[1] - 1); g = vsx_int("g", 0, E[2] - 1); fiber(b, b.v(Domain<1>(0, 1, 1), f, g), 0, f, g, 0, 1, 1); break;
  case 10: f = vsx_int("f", 0, E[0] - 1); g = vsx_int("g", 0, E[2] - 1); fiber(b, b.v(f, Domain<1>(1, -1, 2), g), 1, f, g, 1, -1, 2); break;
  case 11: f = vsx_int("f", 0, E[0] - 1); g = vsx_int("g", 0, E[1] - 1); fiber(b, b.v(f, g, Domain<1>(E[2] - 1, -1, 2)), 2, f, g, E[2] - 1, -1, 2); break;
  } }
template <typename B, dimension_type D0, dimension_type D1, dimension_type D2> void tperm() {
  typedef typename B::value_type T; long E[3] = {pick("m", 1, 3), pick("n", 1, 2), pick("o", 1, 3)}; base3<B> b(E[0], E[1], E[2]); dimension_type D[3] = {D0, D1, D2}; auto v = b.v.template transpose<D0, D1, D2>();
  for (int d = 0; d < 3; ++d) CHECK((long)v.size(d) == E[D[d]], "a tensor transpose permutes the extents");
  long k[3]; k[0] = vsx_int("a", 0, E[D0] - 1); k[1] = vsx_int("b", 0, E[D1] - 1); k[2] = vsx_int("c", 0, E[D2] - 1); long I[3]; for (int d = 0; d < 3; ++d) I[D[d]] = k[d];
  CHECK(v.get(k[0], k[1], k[2]) == b.bg(I[0], I[1], I[2]), "a tensor transpose reads the permuted element"); T x = sy<T>::mk("x"); v.put(k[0], k[1], k[2], x); CHECK(b.v.get(I[0], I[1], I[2]) == x, "a tensor transpose writes the permuted element");
  Tensor<T> c(E[D0], E[D1], E[D2]); c = v; CHECK(c.get(k[0], k[1], k[2]) == x, "copying a transposed tensor keeps positions"); long P[3] = {vsx_int("p", 0, E[0] - 1), vsx_int("q", 0, E[1] - 1), vsx_int("r", 0, E[2] - 1)};
  CHECK(c.get(P[D0], P[D1], P[D2]) == b.v.get(P[0], P[1], P[2]), "copying a transposed tensor copies every element"); v = c; CHECK(((P[0] == I[0]) & (P[1] == I[1]) & (P[2] == I[2])) | b.v.get(P[0], P[1], P[2]) == b.bg(P[0], P[1], P[2]), "assigning a transposed tensor keeps positions");
}
// @entry c03_tensor params=0-11 heavy=2
ENTRY(c03_tensor) { vsipl init; int p = vsx_param(); switch (p % 3) { case 0: tens<Dense<3, float> >(p); break; case 1: tens<Dense<3, float, O120> >(p); break; case 2: tens<Dense<3, float, O201> >(p); break; } }
// @entry c03_tensor_orders params=0-35 tier=thorough
ENTRY(c03_tensor_orders) { vsipl init; int p = vsx_param(); switch (p / 12) { case 0: tens<Dense<3, float, O210> >(p % 12); break; case 1: tens<Dense<3, float, O021> >(p % 12); break; case 2: tens<Strided<3, float, Layout<3, O102, aligned_16, array> > >(p % 12); break; } }
// @entry c03_tperm params=0-5
ENTRY(c03_tperm) { vsipl init; switch (vsx_param()) { case 0: tperm<Dense<3, float>, 0, 1, 2>(); break; case 1: tperm<Dense<3, float, O210>, 0, 2, 1>(); break; case 2: tperm<Dense<3, float>, 1, 0, 2>(); break; case 3: tperm<Dense<3, float, O102>, 1, 2, 0>(); break; case 4: tperm<Dense<3, float>, 2, 0, 1>(); break; case 5: tperm<Dense<3, float, O021>, 2, 1, 0>(); break; } }
