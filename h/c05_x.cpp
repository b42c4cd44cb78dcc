// @property C05
// @bounds complex matrices up to 3x2 in 5 layouts on either side; vectors of 1-5 elements; tensors up to 2x2x2 (3x1x2 through extents); in-place transposition up to 4x4; every element symbolic
#include "cp.h"
template <int K> struct layc;
template <> struct layc<0> { static auto mk(sz s) { return Matrix<cf, CR>(s.m, s.n); } template <typename W> static auto vw(W w, sz) { return w; } };
template <> struct layc<1> { static auto mk(sz s) { return Matrix<cf, CC>(s.m, s.n); } template <typename W> static auto vw(W w, sz) { return w; } };
template <> struct layc<2> { static auto mk(sz s) { return Matrix<cf, SPR>(s.m, s.n); } template <typename W> static auto vw(W w, sz) { return w; } };
template <> struct layc<3> { static auto mk(sz s) { return Matrix<cf, SPC>(s.m, s.n); } template <typename W> static auto vw(W w, sz) { return w; } };
template <> struct layc<4> { static auto mk(sz s) { return Matrix<cf, SPR>(s.n, 2 * s.m); } template <typename W> static auto vw(W w, sz s) { return w(Domain<2>(Domain<1>(s.n), Domain<1>(1, 2, s.m))).transpose(); } };
template <int D, int S> void cpc(sz s) { copies([=] { return layc<D>::mk(s); }, [=](auto w) { return layc<D>::vw(w, s); }, [=] { return layc<S>::mk(s); }, [=](auto w) { return layc<S>::vw(w, s); }); }
// @entry c05_complex params=0-20
ENTRY(c05_complex) { vsipl init; sz s = { len("m", 1, 3), len("n", 1, 2) }; switch (vsx_param()) { case 0: cpc<0, 0>(s); break; case 1: cpc<0, 1>(s); break; case 2: cpc<0, 2>(s); break; case 3: cpc<0, 3>(s); break; case 4: cpc<0, 4>(s); break; case 5: cpc<1, 0>(s); break; case 6: cpc<1, 1>(s); break; case 7: cpc<1, 2>(s); break; case 8: cpc<1, 3>(s); break; case 9: cpc<1, 4>(s); break; case 10: cpc<2, 0>(s); break; case 11: cpc<2, 1>(s); break; case 12: cpc<2, 2>(s); break; case 13: cpc<3, 0>(s); break; case 14: cpc<3, 1>(s); break; case 15: cpc<3, 3>(s); break; case 16: cpc<3, 4>(s); break; case 17: cpc<4, 0>(s); break; case 18: cpc<4, 1>(s); break; case 19: cpc<4, 3>(s); break; case 20: cpc<4, 4>(s); break; } }
// vectors; type conversion
#define CV(A, B, C, D) copies([=] { return A; }, [=](auto w) { return B; }, [=] { return C; }, [=](auto w) { return D; }); break;
// @entry c05_vec params=0-11
ENTRY(c05_vec) { vsipl init; length_type n = len("n", 1, 5); Domain<1> o(0, 2, n), r(n - 1, -1, n); switch (vsx_param()) {
  case 0: CV(Vector<float>(n), w, Vector<float>(n), w) case 1: CV(Vector<float>(2 * n), w(o), Vector<float>(n), w) case 2: CV(Vector<float>(n), w, Vector<float>(2 * n), w(o)) case 3: CV(Vector<float>(n), w(r), Vector<float>(n), w)
  case 4: CV(Vector<double>(n), w, Vector<float>(n), w) case 5: CV(Vector<float>(n), w(r), Vector<int>(n), w) case 6: CV(Vector<cf>(n), w, Vector<float>(n), w) case 7: CV(Vector<cf>(n), w.imag(), Vector<float>(n), w(r))
  case 8: CV(Matrix<float>(3, n), w.row(1), Matrix<float COMMA_ DC>(3, n), w.row(2)) case 9: CV(Matrix<float COMMA_ SC>(n, 3), w.col(1), Matrix<float COMMA_ SR>(n, 2), w.col(1)) case 10: CV(Matrix<float>(n, n), w.diag(0), Vector<cf>(n), w.real()) case 11: CV(Vector<bool>(n), w, Vector<bool>(2 * n), w(o)) } }
template <typename A, typename B> void cp3(int q) { length_type a = len("a", 1, 2), b = len("b", 1, 2), c = len("c", 1, 3); if (q == 0) copies([=] { return Tensor<float, Dense<3, float, A> >(a, b, c); }, [](auto w) { return w; }, [=] { return Tensor<float, Dense<3, float, B> >(a, b, c); }, [](auto w) { return w; }); else copies([=] { return Tensor<float, Dense<3, float, A> >(a + 1, b, c); }, [=](auto w) { return w(Domain<3>(Domain<1>(a, -1, a), b, Domain<1>(c - 1, -1, c))); }, [=] { return Tensor<float, Dense<3, float, B> >(c, a, b); }, [](auto w) { return w.template transpose<1, 2, 0>(); }); }
// @entry c05_ten params=0-11
ENTRY(c05_ten) { vsipl init; int p = vsx_param(), q = p / 6; switch (p % 6) { case 0: cp3<T012, T021>(q); break; case 1: cp3<T021, T120>(q); break; case 2: cp3<T102, T210>(q); break; case 3: cp3<T120, T201>(q); break; case 4: cp3<T201, T012>(q); break; case 5: cp3<T210, T102>(q); break; } }
// in-place transposition
template <typename M> void inplace(M w) { typedef typename M::value_type T; length_type n = w.size(0); std::vector<T> x(n * n); for (index_type i = 0; i < n; ++i) for (index_type j = 0; j < n; ++j) w.put(i, j, x[i * n + j] = sy<T>::mk("x")); w = w.transpose(); for (index_type i = 0; i < n; ++i) for (index_type j = 0; j < n; ++j) CHECK(w.get(i, j) == x[j * n + i], "assigning the transpose of a square matrix to itself transposes it"); }
// @entry c05_inplace params=0-9
ENTRY(c05_inplace) { vsipl init; length_type n = len("n", 1, 4); switch (vsx_param()) { case 0: { Matrix<float> w(n, n); inplace(w); } break; case 1: { Matrix<float, DC> w(n, n); inplace(w); } break; case 2: { Matrix<cf> w(n, n); inplace(w); } break; case 3: { Matrix<cf, CC> w(n, n); inplace(w); } break; case 4: { Matrix<int, Dense<2, int, col2_type> > w(n, n); inplace(w); } break; case 5: { Matrix<float, SR> w(n, n); inplace(w); } break; case 6: { Matrix<float> w(n, n); inplace(w.transpose()); } break;
  case 7: case 8: { Matrix<float> b(n + 2, 2 * n); for (index_type i = 0; i < n + 2; ++i) for (index_type j = 0; j < 2 * n; ++j) b.put(i, j, 100 * i + j); bool rev = vsx_param() == 8; inplace(b(Domain<2>(Domain<1>(1, 1, n), rev ? Domain<1>(2 * n - 1, -2, n) : Domain<1>(0, 2, n)))); for (index_type i = 0; i < n + 2; ++i) for (index_type j = 0; j < 2 * n; ++j) if (i < 1 || i > n || j % 2 != (rev ? 1 : 0)) CHECK(b.get(i, j) == 100.f * i + j, "in-place transposition of a subview changes only the subview"); } break;
  case 9: { Matrix<double, Dense<2, double, col2_type> > w(n, n); inplace(w.transpose()); } break; } }
// scalar fill, swap
// @entry c05_fill params=0-3
ENTRY(c05_fill) { vsipl init; length_type m = len("m", 1, 4), n = len("n", 1, 3); float s = vsx_f32("s", -100, 100); 
#define FILL(M, V) { auto P = M; auto Q = M; each(P, [&](Index<2> i) { float x = sy<float>::mk("x"); set(P, i, x); set(Q, i, x); }); auto v = [&](auto w) { return V; }; auto u = v(Q); each(u, [&](Index<2> i) { set(u, i, s); }); v(P) = s; same(P, Q, "assigning a scalar sets every element of the view and nothing else"); } break;
  switch (vsx_param()) { case 0: FILL(Matrix<float>(m COMMA_ n), w) case 1: FILL(Matrix<float COMMA_ SC>(m COMMA_ n), w) case 2: FILL(Matrix<float>(2 * m COMMA_ n + 1), w(Domain<2>(Domain<1>(2 * m - 1, -2, m), Domain<1>(1, 1, n)))) case 3: FILL(Matrix<float COMMA_ DC>(n COMMA_ m), w.transpose()) } }
