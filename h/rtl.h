#pragma once
#include "dda.h"
#include <ovxx/dda.hpp>
#include <ovxx/storage.hpp>
typedef complex<float> cf; using ovxx::Rt_layout; using ovxx::Rt_tuple;
template <dimension_type D> Rt_layout<D> rtl(Rt_tuple o, pack_type p, storage_format_type f) { Rt_layout<D> r; r.order = o; r.packing = p; r.storage_format = f; r.alignment = p == ovxx::aligned ? 16 : 0; return r; }
static Rt_tuple ord3(int k) { switch (k) { case 0: return Rt_tuple(0, 1, 2); case 1: return Rt_tuple(0, 2, 1); case 2: return Rt_tuple(1, 0, 2); case 3: return Rt_tuple(1, 2, 0); case 4: return Rt_tuple(2, 0, 1); default: return Rt_tuple(2, 1, 0); } }
template <typename D, typename V> void rlay(D &d, V const &v, Rt_layout<V::dim> const &l) { int const n = V::dim; long want = 1; unsigned o[3] = { (unsigned)l.order.impl_dim0, (unsigned)l.order.impl_dim1, (unsigned)l.order.impl_dim2 };
  for (int k = 0; k < n; ++k) CHECK(d.size(k) == v.size(k), "run-time direct data access reports the extents of the block");
  for (int k = n - 1; k >= 0; --k) { unsigned e = o[k]; bool one = v.size(e) == 1 && k != n - 1; if (k == n - 1) CHECK((d.stride(e) == 1) | one, "the minor dimension of a run-time layout has unit stride"); if (l.packing == dense) CHECK((d.stride(e) == want) | one, "a dense run-time layout has no gaps"); else if (k < n - 1) { CHECK((d.stride(e) >= want) | one, "strides follow the run-time dimension order"); if (l.packing == ovxx::aligned) CHECK((d.stride(e) * (long)sizeof(typename V::value_type)) % 16 == 0, "rows of an aligned run-time layout are aligned"); } want = (long)v.size(e) * (l.packing == dense ? want : d.stride(e)); } }
template <typename T, typename F> void with(T *p, storage_format_type, F f) { f(p); }
template <typename F> void with(ovxx::pointer<cf> p, storage_format_type s, F f) { if (s == array) f(p.as<array>()); else if (s == interleaved_complex) f(p.as<interleaved_complex>()); else f(p.as<split_complex>()); }
template <typename F> void with(ovxx::const_pointer<cf> p, storage_format_type s, F f) { if (s == array) f(p.as<array>()); else if (s == interleaved_complex) f(p.as<interleaved_complex>()); else f(p.as<split_complex>()); }
template <typename MK, typename VW, dimension_type N> void rt(MK mk, VW vw, Rt_layout<N> l, int what) {
  auto P = mk(); auto Q = mk(); typedef decltype(P) PV; typedef typename PV::value_type PT; each(P, [&](Index<PV::dim> i) { PT x = sy<PT>::mk("x"); set(P, i, x); set(Q, i, x); });
  auto v = vw(P); auto u = vw(Q); typedef decltype(v) V; typedef typename V::block_type B; typedef typename V::value_type T;
  if (what == 0) { { ovxx::dda::Rt_data<B, dd::in> d(v.block(), l); rlay(d, v, l); with(d.ptr(), l.storage_format, [&](auto p) { each(v, [&](Index<V::dim> i) { CHECK((io<T, decltype(p)>::get(p, off(d, i)) == at(u, i)), "memory delivered for a run-time layout holds the elements of the block"); }); }); } same(P, Q, "reading through a run-time layout does not change the block"); }
  else { { ovxx::dda::Rt_data<B, dd::inout> d(v.block(), l); rlay(d, v, l); with(d.ptr(), l.storage_format, [&](auto p) { each(v, [&](Index<V::dim> i) { CHECK((io<T, decltype(p)>::get(p, off(d, i)) == at(u, i)), "memory delivered for a run-time layout holds the elements of the block"); T y = sy<T>::mk("y"); io<T, decltype(p)>::put(p, off(d, i), y); set(u, i, y); }); }); } same(P, Q, "elements written through a run-time layout arrive in the block and nowhere else"); } }
static pack_type pk(int k) { return k == 0 ? dense : k == 1 ? unit_stride : ovxx::aligned; }
