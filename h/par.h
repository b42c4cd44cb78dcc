// simulated ranks: every rank is a cooperative thread with its own library instance; MPI is the contract model in model/mpi.c
#pragma once
#include "c.h"
#include <vsip/map.hpp>
#include <vsip/parallel.hpp>
#include <functional>
#include <vector>
extern "C" int mpi_model_np;
static std::function<void(int)> *ranks_f;
static void ranks_main(void *) { vsipl init; (*ranks_f)(vsx_self()); }
template <typename F> void ranks(int np, F f) { std::function<void(int)> g(f); ranks_f = &g; mpi_model_np = np; vsipl init; for (int i = 1; i < np; ++i) vsx_spawn(ranks_main, 0); g(0); vsx_join(); }
inline Vector<processor_type> pvec(std::vector<int> const &p) { Vector<processor_type> v(p.size()); for (index_type i = 0; i < p.size(); ++i) v.put(i, p[i]); return v; }
// the i-th of several maps over np ranks, as one-, two- and three-dimensional maps
template <typename F> void map1(int k, int np, F f) { std::vector<int> rev, rot; for (int i = 0; i < np; ++i) { rev.push_back(np - 1 - i); rot.push_back((i + 1) % np); }
  switch (k) { case 0: f(Replicated_map<1>()); break; case 1: f(Map<Block_dist>(Block_dist(np))); break; case 2: f(Map<Block_dist>(pvec(rev), Block_dist(np))); break; case 3: f(Map<Block_dist>(pvec({np - 1}), Block_dist(1))); break; case 4: f(Map<Cyclic_dist>(Cyclic_dist(np))); break;
    case 5: f(Map<Cyclic_dist>(Cyclic_dist(np, 2))); break; case 6: f(Map<Block_dist>(pvec(rot), Block_dist(np - 1))); break; case 7: f(Map<Whole_dist>()); break; case 8: f(Map<Cyclic_dist>(pvec(rot), Cyclic_dist(np - 1, 3))); break; case 9: f(Replicated_map<1>(pvec({1, 0}))); break; } }
template <typename F> void map2(int k, int np, F f) { std::vector<int> rev; for (int i = 0; i < np; ++i) rev.push_back(np - 1 - i); int h = np / 2; if (h < 1) h = 1; int q = np / h;
  switch (k) { case 0: f(Replicated_map<2>()); break; case 1: f(Map<>(Block_dist(np), Block_dist(1))); break; case 2: f(Map<>(Block_dist(1), Block_dist(np))); break; case 3: f(Map<>(Block_dist(h), Block_dist(q))); break; case 4: f(Map<>(pvec(rev), Block_dist(q), Block_dist(h))); break; case 5: f(Map<Cyclic_dist, Block_dist>(Cyclic_dist(np), Block_dist(1))); break;
    case 6: f(Map<Cyclic_dist, Cyclic_dist>(Cyclic_dist(q), Cyclic_dist(h, 2))); break; case 7: f(Map<Block_dist, Whole_dist>(Block_dist(np), Whole_dist())); break; case 8: f(Map<>(Block_dist(1), Block_dist(1))); break; case 9: f(Map<Block_dist, Cyclic_dist>(pvec(rev), Block_dist(h), Cyclic_dist(q))); break; } }
template <typename F> void map3(int k, int np, F f) { std::vector<int> rev; for (int i = 0; i < np; ++i) rev.push_back(np - 1 - i); int h = np / 2; if (h < 1) h = 1; int q = np / h;
  switch (k) { case 0: f(Replicated_map<3>()); break; case 1: f(Map<>(Block_dist(np), Block_dist(1), Block_dist(1))); break; case 2: f(Map<>(Block_dist(1), Block_dist(h), Block_dist(q))); break; case 3: f(Map<>(pvec(rev), Block_dist(h), Block_dist(1), Block_dist(q))); break; case 4: f(Map<Block_dist, Cyclic_dist, Block_dist>(Block_dist(1), Cyclic_dist(np), Block_dist(1))); break; } }
// views and elements by dimension
template <typename T, typename O, typename M> Vector<T, Dense<1, T, O, M> > mkp(Domain<1> d, M const &m) { return Vector<T, Dense<1, T, O, M> >(d.size(), m); }
template <typename T, typename O, typename M> Matrix<T, Dense<2, T, O, M> > mkp(Domain<2> d, M const &m) { return Matrix<T, Dense<2, T, O, M> >(d[0].size(), d[1].size(), m); }
template <typename T, typename O, typename M> Tensor<T, Dense<3, T, O, M> > mkp(Domain<3> d, M const &m) { return Tensor<T, Dense<3, T, O, M> >(d[0].size(), d[1].size(), d[2].size(), m); }
template <typename V> auto eget(V v, Index<1> i) { return v.get(i[0]); } template <typename V> auto eget(V v, Index<2> i) { return v.get(i[0], i[1]); } template <typename V> auto eget(V v, Index<3> i) { return v.get(i[0], i[1], i[2]); }
template <typename V, typename T> void eput(V v, Index<1> i, T t) { v.put(i[0], t); } template <typename V, typename T> void eput(V v, Index<2> i, T t) { v.put(i[0], i[1], t); } template <typename V, typename T> void eput(V v, Index<3> i, T t) { v.put(i[0], i[1], i[2], t); }
inline Index<1> mkix(Index<1> *, index_type a, index_type, index_type) { return Index<1>(a); } inline Index<2> mkix(Index<2> *, index_type a, index_type b, index_type) { return Index<2>(a, b); } inline Index<3> mkix(Index<3> *, index_type a, index_type b, index_type c) { return Index<3>(a, b, c); }
template <dimension_type D, typename F> void idxs(index_type const *e, F f) { index_type n[3] = { 1, 1, 1 }; for (dimension_type k = 0; k < D; ++k) n[k] = e[k]; for (index_type a = 0; a < n[0]; ++a) for (index_type b = 0; b < n[1]; ++b) for (index_type c = 0; c < n[2]; ++c) f(mkix((Index<D> *)0, a, b, c)); }
template <dimension_type D> long lin(Index<D> i, Domain<D> const &d) { long r = 0; for (dimension_type k = 0; k < D; ++k) r = r * (long)d[k].size() + (long)i[k]; return r; }
// every element a rank holds: f(local view, local index, linear global index)
template <dimension_type D, typename V, typename F> void held(V v, Domain<D> const &d, F f) { index_type sb = v.block().map().subblock(); auto l = v.local(); if (sb == no_subblock) { CHECK(l.size() == 0, "a processor outside the map holds nothing"); return; } index_type e[3]; for (dimension_type k = 0; k < D; ++k) e[k] = l.size(k); idxs<D>(e, [&](Index<D> i) { f(l, i, lin<D>(vsip::global_from_local_index(v, sb, i), d)); }); }
template <typename T, dimension_type D, typename V> void fill(V v, Domain<D> const &d, T const *x) { held<D>(v, d, [&](auto l, Index<D> i, long g) { eput(l, i, x[g]); }); }
template <dimension_type D, typename V, typename E> void expect(V v, Domain<D> const &d, E e, char const *what) { held<D>(v, d, [&](auto l, Index<D> i, long g) { CHECK(eget(l, i) == e(g), what); }); }
template <typename T> struct symv { static T at(char const *n) { return (T)vsx_int(n, -50, 50); } }; template <> struct symv<float> { static float at(char const *n) { return vsx_f32(n, -50, 50); } }; template <> struct symv<complex<float> > { static complex<float> at(char const *n) { float a = vsx_f32(n, -50, 50); return complex<float>(a, vsx_f32(n, -50, 50)); } };
template <typename T> std::vector<T> syms(char const *n, long k) { std::vector<T> r(k); for (long i = 0; i < k; ++i) r[i] = symv<T>::at(n); return r; }
