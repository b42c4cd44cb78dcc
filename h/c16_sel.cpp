// @property C16
// @bounds selection: views up to 4 elements or 3 by 3, index lists up to 3 entries with repetitions; clip: every ordering of thresholds and values in -100..100; swap: every pair of dimension orders and windows
#include "mv.h"
#include <vsip/selgen.hpp>
template <typename V, typename T> void win1(V &v, std::vector<T> const &x) { put1(v.v, x); }
static bool lt_(int a, int b) { return a < b; } struct ltf { bool operator()(float a, float b) const { return a < b; } };
template <typename A, typename P> void firsts(P p) { typedef typename A::T T; length_type n = len("n", 1, 4); long s = pick("s", -2, 2); vsx_assume(s != 0); std::vector<T> a = syv<T>("a", n), b = syv<T>("b", n); A x(n, s); Vector<T> y(n); put1(x.v, a); put1(y, b); index_type beg = (index_type)pick("b", 0, 5); index_type r = first(beg, p, x.v, y);
  if (beg > n) CHECK(r == beg, "first beyond the end returns its start"); else { bool found = false; for (index_type i = beg; i < n; ++i) { bool h = p(a[i], b[i]); CHECK(!((r == i) & !h), "first returns an index that satisfies the predicate"); CHECK(!(h & (r > i)), "first skips no index that satisfies the predicate"); found |= h; } CHECK((r <= n) & (r >= beg), "first returns an index of the range or the size"); CHECK(found | (r == n), "first returns the size when nothing is found"); } }
// @entry c16_first params=0-1
ENTRY(c16_first) { vsipl init; if (vsx_param()) firsts<cv<float> >(ltf()); else firsts<sv<Dense<1, int> > >(&lt_); }
template <typename T> void ib1() { length_type n = len("n", 1, 4), k = len("k", 1, 4); long s = pick("s", -1, 2); vsx_assume(s != 0); sv<Dense<1, T> > x(n, s); std::vector<T> a; for (length_type i = 0; i < n; ++i) { a.push_back(T(vsx_int("a", 0, 1))); x.v.put(i, a[i]); } Vector<Index<1> > ix(k); for (index_type i = 0; i < k; ++i) ix.put(i, Index<1>(99)); length_type c = indexbool(x.v, ix); length_type w = 0; for (index_type i = 0; i < n; ++i) if (a[i]) { if (w < k) CHECK(ix.get(w)[0] == i, "indexbool lists the true positions in order"); ++w; } CHECK(c == w, "indexbool counts the true elements"); for (index_type i = w; i < k; ++i) CHECK(ix.get(i)[0] == 99, "indexbool leaves the remaining entries alone"); }
template <typename T, typename B> void ib2() { length_type m = len("m", 1, 2), n = len("n", 1, 3), k = len("k", 1, 6); long r, c; shape((int)pick("sh", 0, 2), r, c); wm<B> x(m, n, r, c); std::vector<int> a; for (length_type i = 0; i < m * n; ++i) { a.push_back((int)vsx_int("a", 0, 1)); x.v.put(i / n, i % n, T(a[i] != 0)); } Vector<Index<2> > ix(k); for (index_type i = 0; i < k; ++i) ix.put(i, Index<2>(99, 99)); length_type q = indexbool(x.v, ix); length_type w = 0; for (index_type i = 0; i < m * n; ++i) if (a[i]) { if (w < k) CHECK((ix.get(w)[0] == i / n) & (ix.get(w)[1] == i % n), "indexbool lists the true positions of a matrix row by row"); ++w; } CHECK(q == w, "indexbool counts the true elements"); for (index_type i = w; i < k; ++i) CHECK(ix.get(i)[0] == 99, "indexbool leaves the remaining entries alone"); }
// @entry c16_ib params=0-3
ENTRY(c16_ib) { vsipl init; switch (vsx_param()) { case 0: ib1<bool>(); break; case 1: ib1<int>(); break; case 2: ib2<bool, Dense<2, bool> >(); break; case 3: ib2<int, Dense<2, int, col2_type> >(); break; } }
// gather and scatter with any index lists, repetitions included
template <typename A, typename T = typename A::T> void gs1() { length_type n = len("n", 1, 4), k = len("k", 1, 3); long s = pick("s", -2, 2); vsx_assume(s != 0); std::vector<T> a = syv<T>("a", n), b = syv<T>("b", k); A x(n, s); put1(x.v, a); std::vector<index_type> ix; Vector<Index<1> > ii(k); for (length_type i = 0; i < k; ++i) { ix.push_back((index_type)vsx_int("ix", 0, (long)n - 1)); ii.put(i, Index<1>(ix[i])); }
  auto g = gather(x.v, ii); CHECK(g.size() == k, "gather returns one value per index"); for (length_type i = 0; i < k; ++i) { T e = T(); for (length_type j = 0; j < n; ++j) if (ix[i] == j) e = a[j]; CHECK(g.get(i) == e, "gather reads the indexed elements"); }
  Vector<T> src(k); put1(src, b); scatter(src, ii, x.v); for (length_type j = 0; j < n; ++j) { T e = a[j]; for (length_type i = 0; i < k; ++i) if (ix[i] == j) e = b[i]; CHECK(x.v.get(j) == e, "scatter writes the indexed elements and no others"); } x.outside("scatter writes nothing else"); }
template <typename B> void gs2() { typedef typename B::value_type T; length_type m = len("m", 1, 3), n = len("n", 1, 2), k = 2; long r, c; shape((int)pick("sh", 0, SHAPES - 1), r, c); std::vector<T> a = syv<T>("a", m * n), b = syv<T>("b", k); wm<B> x(m, n, r, c); put2(x.v, a); std::vector<index_type> ix, jx; Vector<Index<2> > ii(k); for (length_type i = 0; i < k; ++i) { ix.push_back((index_type)pick("ix", 0, (long)m - 1)); jx.push_back((index_type)pick("jx", 0, (long)n - 1)); ii.put(i, Index<2>(ix[i], jx[i])); }
  auto g = gather(x.v, ii); for (length_type i = 0; i < k; ++i) CHECK(g.get(i) == a[ix[i] * n + jx[i]], "gather reads the indexed elements"); Vector<T> src(k); put1(src, b); scatter(src, ii, x.v); for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) { T e = a[i * n + j]; for (length_type q = 0; q < k; ++q) if ((ix[q] == i) & (jx[q] == j)) e = b[q]; CHECK(x.v.get(i, j) == e, "scatter writes the indexed elements and no others"); } x.outside("scatter writes nothing else"); }
// @entry c16_gs params=0-4
ENTRY(c16_gs) { vsipl init; switch (vsx_param()) { case 0: gs1<sv<D1> >(); break; case 1: gs1<cv<z> >(); break; case 2: gs2<MR>(); break; case 3: gs2<MC>(); break; case 4: gs2<SPC>(); break; } }
// @entry c16_gs3
ENTRY(c16_gs3) { vsipl init; Tensor<float> t(2, 3, 2); for (int i = 0; i < 12; ++i) t.put(i / 6, i / 2 % 3, i % 2, vsx_f32("a", -100, 100)); index_type a = pick("a", 0, 1), b = pick("b", 0, 2), c = pick("c", 0, 1); Vector<Index<3> > ii(2); ii.put(0, Index<3>(a, b, c)); ii.put(1, Index<3>(1 - a, 2 - b, c)); auto g = gather(t, ii); CHECK((g.get(0) == t.get(a, b, c)) & (g.get(1) == t.get(1 - a, 2 - b, c)), "gather reads the indexed elements of a tensor"); Vector<float> s(2); s.put(0, 500); s.put(1, 600); Tensor<float> u(2, 3, 2); u = t; scatter(s, ii, u); for (int i = 0; i < 12; ++i) { index_type x = i / 6, y = i / 2 % 3, w = i % 2; bool k0 = x == a && y == b && w == c, k1 = x == 1 - a && y == 2 - b && w == c; CHECK(u.get(x, y, w) == (k1 ? 600.f : k0 ? 500.f : t.get(x, y, w)), "scatter writes the indexed elements of a tensor and no others"); } }
// ramp
template <typename T> void ramps() { length_type n = len("n", 1, 5); long s = pick("s", -2, 2); vsx_assume(s != 0); T a = sy<T>::mk("a"), b = sy<T>::mk("b"); sv<Dense<1, T> > x(n, s); x.v = ramp(a, b, n); for (index_type i = 0; i < n; ++i) CHECK(x.v.get(i) == a + T(i) * b, "ramp runs from its start in equal steps"); x.outside("ramp writes nothing else"); x.v = ramp(a, b, n) * T(2) + x.v; for (index_type i = 0; i < n; ++i) CHECK(x.v.get(i) == T(3) * (a + T(i) * b), "ramp inside an expression"); CHECK(ramp(a, b, n).size() == n, "a ramp has its length"); }
// @entry c16_ramp params=0-3
ENTRY(c16_ramp) { vsipl init; switch (vsx_param()) { case 0: ramps<float>(); break; case 1: ramps<double>(); break; case 2: ramps<int>(); break; case 3: ramps<z>(); break; } }
// clip and invclip
template <typename A, typename T = typename A::T> void clips() { length_type n = len("n", 1, 3); long s = pick("s", -2, 2); vsx_assume(s != 0); T lo = sy<T>::mk("lo"), mi = sy<T>::mk("mi"), hi = sy<T>::mk("hi"), cl = sy<T>::mk("cl"), ch = sy<T>::mk("ch"); vsx_assume((lo <= mi) & (mi <= hi)); std::vector<T> a = syv<T>("a", n); A x(n, s); put1(x.v, a); Vector<T> r(n); r = clip(x.v, lo, hi, cl, ch); for (index_type i = 0; i < n; ++i) { T t = a[i]; CHECK(!(t <= lo) | (r.get(i) == cl), "clip replaces values up to the lower threshold"); CHECK((t <= lo) | !(t < hi) | (r.get(i) == t), "clip keeps values between the thresholds"); CHECK((t <= lo) | (t < hi) | (r.get(i) == ch), "clip replaces values from the upper threshold"); }
  r = invclip(x.v, lo, mi, hi, cl, ch); for (index_type i = 0; i < n; ++i) { T t = a[i]; CHECK(!(t < lo) | (r.get(i) == t), "invclip keeps values below the lower threshold"); CHECK((t < lo) | !(t < mi) | (r.get(i) == cl), "invclip replaces values below the middle threshold"); CHECK((t < mi) | !(t <= hi) | (r.get(i) == ch), "invclip replaces values up to the upper threshold"); CHECK(!(t > hi) | (r.get(i) == t), "invclip keeps values above the upper threshold"); } same1(x.v, a, "clip leaves its argument unchanged"); }
// @entry c16_clip params=0-2
ENTRY(c16_clip) { vsipl init; switch (vsx_param()) { case 0: clips<sv<D1> >(); break; case 1: clips<cv<double> >(); break; case 2: clips<sv<Dense<1, int> > >(); break; } }
// @entry c16_clip2
ENTRY(c16_clip2) { vsipl init; length_type m = len("m", 1, 3), n = len("n", 1, 2); long r, c; shape((int)pick("sh", 0, SHAPES - 1), r, c); std::vector<float> a = syv<float>("a", m * n); wm<MC> x(m, n, r, c); put2(x.v, a); wm<DMR> y(m, n, c, r); y.v = clip(x.v, -5.f, 10.f, -50., 75.); for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) { float t = a[i * n + j]; double e = y.v.get(i, j); CHECK((!(t <= -5) | (e == -50)) & (!((t > -5) & (t < 10)) | (e == t)) & (!(t >= 10) | (e == 75)), "clip of a matrix, converting"); } y.outside("clip writes nothing else"); }
// swap
template <typename A, typename B> void sw1() { typedef typename A::T T; length_type n = len("n", 1, 4); long s = pick("s", -2, 2), t = pick("t", -2, 2); vsx_assume((s != 0) & (t != 0)); std::vector<T> a = syv<T>("a", n), b = syv<T>("b", n); A x(n, s); B y(n, t); put1(x.v, a); put1(y.v, b); vsip::swap(x.v, y.v); same1(x.v, b, "swap exchanges the elements"); same1(y.v, a, "swap exchanges the elements"); x.outside("swap writes nothing else"); y.outside("swap writes nothing else"); }
template <typename A, typename B> void sw2() { typedef typename A::value_type T; length_type m = len("m", 1, 3), n = len("n", 1, 3); std::vector<T> a = syv<T>("a", m * n), b = syv<T>("b", m * n); Matrix<T, A> x(m, n); Matrix<T, B> y(m, n); put2(x, a); put2(y, b); vsip::swap(x, y); same2(x, b, "swap exchanges the elements of matrices"); same2(y, a, "swap exchanges the elements of matrices"); }
template <typename A, typename B> void sw3() { typedef typename A::T T; length_type m = len("m", 1, 3), n = len("n", 1, 2); long r, c; shape((int)pick("sh", 0, SHAPES - 1), r, c); std::vector<T> a = syv<T>("a", m * n), b = syv<T>("b", m * n); A x(m, n, r, c); B y(m, n, c, r); put2(x.v, a); put2(y.v, b); vsip::swap(x.v, y.v); same2(x.v, b, "swap exchanges the elements of matrix windows"); same2(y.v, a, "swap exchanges the elements of matrix windows"); x.outside("swap writes nothing else"); y.outside("swap writes nothing else"); }
// @entry c16_swap params=0-8
ENTRY(c16_swap) { vsipl init; switch (vsx_param()) { case 0: sw1<sv<D1>, cv<float> >(); break; case 1: sw1<sv<SP1>, sv<Z1> >(); break; case 2: sw2<MR, MR>(); break; case 3: sw2<MC, MC>(); break; case 4: sw2<MR, MC>(); break; case 5: sw2<MC, MR>(); break; case 6: sw3<wm<MR>, wm<MC> >(); break; case 7: sw3<wm<SPC>, wm<ZR> >(); break; case 8: { Tensor<float> t(2, 2, 3); Tensor<float, Dense<3, float, tuple<2, 0, 1> > > u(2, 2, 3); std::vector<float> a = syv<float>("a", 12), b = syv<float>("b", 12); for (int i = 0; i < 12; ++i) { t.put(i / 6, i / 3 % 2, i % 3, a[i]); u.put(i / 6, i / 3 % 2, i % 3, b[i]); } vsip::swap(t, u); for (int i = 0; i < 12; ++i) CHECK((t.get(i / 6, i / 3 % 2, i % 3) == b[i]) & (u.get(i / 6, i / 3 % 2, i % 3) == a[i]), "swap exchanges the elements of tensors"); break; } } }
