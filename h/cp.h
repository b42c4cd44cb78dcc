#pragma once
#define COMMA_ ,
#include "dda.h"
typedef complex<float> cf;
// v = s must be the same as putting every element of s; nothing else changes in the parent of v, nothing changes in s
template <typename MK, typename VW, typename SM, typename SV> void copies(MK mk, VW vw, SM smk, SV sv) {
  auto P = mk(); auto Q = mk(); auto S = smk(); typedef decltype(P) PV; typedef decltype(S) SS; typedef typename PV::value_type PT; typedef typename SS::value_type ST;
  each(P, [&](Index<PV::dim> i) { PT x = sy<PT>::mk("x"); set(P, i, x); set(Q, i, x); }); std::vector<ST> old; each(S, [&](Index<SS::dim> i) { ST y = sy<ST>::mk("y"); set(S, i, y); old.push_back(y); });
  auto v = vw(P); auto u = vw(Q); auto s = sv(S); typedef decltype(v) V; typedef typename V::value_type T; each(u, [&](Index<V::dim> i) { set(u, i, T(at(s, i))); });
  v = s; same(P, Q, "assigning a view to a view copies every element to its position and changes nothing else"); long c = 0; each(S, [&](Index<SS::dim> i) { CHECK(at(S, i) == old[c++], "the source of a copy is unchanged"); }); }
struct sz { length_type m, n; };
// layouts of an m x n real matrix: 0 row dense, 1 col dense, 2 row aligned, 3 col aligned, 4 transposed row dense, 5 strided subview of row, 6 subview of col with reversed rows, 7 slice of a tensor
template <int K> struct lay2;
template <> struct lay2<0> { static auto mk(sz s) { return Matrix<float, DR>(s.m, s.n); } template <typename W> static auto vw(W w, sz) { return w; } };
template <> struct lay2<1> { static auto mk(sz s) { return Matrix<float, DC>(s.m, s.n); } template <typename W> static auto vw(W w, sz) { return w; } };
template <> struct lay2<2> { static auto mk(sz s) { return Matrix<float, SR>(s.m, s.n); } template <typename W> static auto vw(W w, sz) { return w; } };
template <> struct lay2<3> { static auto mk(sz s) { return Matrix<float, SC>(s.m, s.n); } template <typename W> static auto vw(W w, sz) { return w; } };
template <> struct lay2<4> { static auto mk(sz s) { return Matrix<float, DR>(s.n, s.m); } template <typename W> static auto vw(W w, sz) { return w.transpose(); } };
template <> struct lay2<5> { static auto mk(sz s) { return Matrix<float, DR>(2 * s.m, s.n + 1); } template <typename W> static auto vw(W w, sz s) { return w(Domain<2>(Domain<1>(0, 2, s.m), Domain<1>(1, 1, s.n))); } };
template <> struct lay2<6> { static auto mk(sz s) { return Matrix<float, DC>(s.m, s.n + 1); } template <typename W> static auto vw(W w, sz s) { return w(Domain<2>(Domain<1>(s.m - 1, -1, s.m), Domain<1>(0, 1, s.n))); } };
template <> struct lay2<7> { static auto mk(sz s) { return Tensor<float, Dense<3, float, T120> >(2, s.m, s.n); } template <typename W> static auto vw(W w, sz) { return w(1, whole_domain, whole_domain); } };
template <int D, int S> void cp2(sz s) { copies([=] { return lay2<D>::mk(s); }, [=](auto w) { return lay2<D>::vw(w, s); }, [=] { return lay2<S>::mk(s); }, [=](auto w) { return lay2<S>::vw(w, s); }); }
#define CPS(D) switch (k) { case 0: cp2<D, 0>(s); break; case 1: cp2<D, 1>(s); break; case 2: cp2<D, 2>(s); break; case 3: cp2<D, 3>(s); break; case 4: cp2<D, 4>(s); break; case 5: cp2<D, 5>(s); break; case 6: cp2<D, 6>(s); break; case 7: cp2<D, 7>(s); break; }
