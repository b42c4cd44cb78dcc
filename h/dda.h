#pragma once
#include "sub.h"
#include <vsip/dda.hpp>
namespace dd = vsip::dda;
// element o of memory in any storage format
template <typename T> T rd(T const *p, long o) { return p[o]; }
template <typename T> complex<T> rd(std::pair<T const *, T const *> p, long o) { return complex<T>(p.first[o], p.second[o]); }
template <typename T> complex<T> rd(std::pair<T *, T *> p, long o) { return complex<T>(p.first[o], p.second[o]); }
template <typename T> void wr(T *p, long o, T v) { p[o] = v; }
template <typename T> void wr(std::pair<T *, T *> p, long o, complex<T> v) { p.first[o] = v.real(); p.second[o] = v.imag(); }
template <typename T, typename P> struct io { static T get(P p, long o) { return rd(p, o); } template <typename Q> static void put(Q p, long o, T v) { wr(p, o, v); } };
template <typename R> struct io<complex<R>, R *> { static complex<R> get(R const *p, long o) { return complex<R>(p[2 * o], p[2 * o + 1]); } static void put(R *p, long o, complex<R> v) { p[2 * o] = v.real(); p[2 * o + 1] = v.imag(); } };
template <typename R> struct io<complex<R>, R const *> { static complex<R> get(R const *p, long o) { return complex<R>(p[2 * o], p[2 * o + 1]); } };
template <typename T> void *adr(T *p) { return (void *)p; }
template <typename T> void *adr(std::pair<T *, T *> p) { return (void *)p.first; }
// visiting
template <typename V, typename F> void each(V const &v, F f, Index<1> *) { for (index_type i = 0; i < v.size(0); ++i) f(Index<1>(i)); }
template <typename V, typename F> void each(V const &v, F f, Index<2> *) { for (index_type i = 0; i < v.size(0); ++i) for (index_type j = 0; j < v.size(1); ++j) f(Index<2>(i, j)); }
template <typename V, typename F> void each(V const &v, F f, Index<3> *) { for (index_type i = 0; i < v.size(0); ++i) for (index_type j = 0; j < v.size(1); ++j) for (index_type k = 0; k < v.size(2); ++k) f(Index<3>(i, j, k)); }
template <typename V, typename F> void each(V const &v, F f) { each(v, f, (Index<V::dim> *)0); }
template <typename V> typename V::value_type at(V const &v, Index<1> i) { return v.get(i[0]); }
template <typename V> typename V::value_type at(V const &v, Index<2> i) { return v.get(i[0], i[1]); }
template <typename V> typename V::value_type at(V const &v, Index<3> i) { return v.get(i[0], i[1], i[2]); }
template <typename V, typename T> void set(V v, Index<1> i, T x) { v.put(i[0], x); }
template <typename V, typename T> void set(V v, Index<2> i, T x) { v.put(i[0], i[1], x); }
template <typename V, typename T> void set(V v, Index<3> i, T x) { v.put(i[0], i[1], i[2], x); }
template <typename D> long off(D const &d, Index<1> i) { return (long)i[0] * d.stride(0); }
template <typename D> long off(D const &d, Index<2> i) { return (long)i[0] * d.stride(0) + (long)i[1] * d.stride(1); }
template <typename D> long off(D const &d, Index<3> i) { return (long)i[0] * d.stride(0) + (long)i[1] * d.stride(1) + (long)i[2] * d.stride(2); }
template <typename O> struct ordr { static bool const any = false; static dimension_type at(int k) { return k == 0 ? O::impl_dim0 : k == 1 ? O::impl_dim1 : O::impl_dim2; } };
template <> struct ordr<ovxx::any_type> { static bool const any = true; static dimension_type at(int k) { return k; } };
template <pack_type P> struct algn { static long const value = P == aligned_8 ? 8 : P == aligned_16 ? 16 : P == aligned_32 ? 32 : P == aligned_64 ? 64 : P == aligned_128 ? 128 : 0; };
// the requested layout is the one delivered
template <typename L, typename D, typename V> void lay_ok(D &d, V const &v, bool writable) { (void)writable;
  dimension_type const n = V::dim; length_type tot = 1; for (dimension_type k = 0; k < n; ++k) { CHECK(d.size(k) == v.size(k), "direct data access reports the extents of the block"); tot *= v.size(k); }
  CHECK(d.size() == tot, "direct data access reports the number of elements of the block");
  if (ordr<typename L::order_type>::any || L::packing == any_packing) return;
  long want = 1; for (int k = n - 1; k >= 0; --k) { dimension_type e = ordr<typename L::order_type>::at(k); bool one = v.size(e) == 1 && k != (int)n - 1;
    if (k == (int)n - 1) CHECK((d.stride(e) == 1) | one, "the minor dimension has unit stride when the layout asks for it");
    if (L::packing == dense) CHECK((d.stride(e) == want) | one, "a dense layout has no gaps");
    if (L::packing != dense && k < (int)n - 1) CHECK((d.stride(e) >= want) | one, "strides follow the requested dimension order");
    if (algn<L::packing>::value && k < (int)n - 1) CHECK((d.stride(e) * (long)sizeof(typename V::value_type)) % algn<L::packing>::value == 0, "rows of an aligned layout are aligned");
    want = (long)v.size(e) * (L::packing == dense ? want : d.stride(e)); }
  if (algn<L::packing>::value) CHECK((unsigned long)adr(d.ptr()) % algn<L::packing>::value == 0, "an aligned layout starts at an aligned address"); }
template <typename V, typename W> void same(V const &a, W const &b, char const *msg) { each(a, [&](Index<V::dim> i) { CHECK(at(a, i) == at(b, i), msg); }); }
template <typename T> T *buf_(length_type n, T **) { T *p = 0; if (posix_memalign((void **)&p, 128, n * sizeof(T) + 1)) return 0; return p; }
template <typename T> struct bufs; 
template <typename T> struct bufs<T *> { T *p; bufs(length_type n, int f) : p((T *)malloc(n * f * sizeof(T))) {} ~bufs() { free(p); } };
template <typename T> struct bufs<std::pair<T *, T *> > { std::pair<T *, T *> p; bufs(length_type n, int) : p((T *)malloc(n * sizeof(T)), (T *)malloc(n * sizeof(T))) {} ~bufs() { free(p.first); free(p.second); } };
// P and Q are equal parents; P is accessed directly, Q through put
template <typename L, typename MK, typename VW> void access(MK mk, VW vw, int what) {
  auto P = mk(); auto Q = mk(); typedef decltype(P) PV; typedef typename PV::value_type PT;
  each(P, [&](Index<PV::dim> i) { PT x = sy<PT>::mk("x"); set(P, i, x); set(Q, i, x); });
  auto v = vw(P); auto u = vw(Q); typedef decltype(v) V; typedef typename V::block_type B; typedef typename V::value_type T;
  if (what == 0) { dd::Data<B, dd::in, L> d(v.block()); typedef decltype(d.ptr()) PP; lay_ok<L>(d, v, false); each(v, [&](Index<V::dim> i) { CHECK((io<T, PP>::get(d.ptr(), off(d, i)) == at(u, i)), "memory delivered for reading holds the elements of the block"); }); }
  if (what == 0) { dd::Data<B, (dd::in | dd::copy), L> d(v.block()); typedef decltype(d.ptr()) PP; lay_ok<L>(d, v, true); each(v, [&](Index<V::dim> i) { CHECK((io<T, PP>::get(d.ptr(), off(d, i)) == at(u, i)), "memory delivered by forced copy holds the elements of the block"); io<T, PP>::put(d.ptr(), off(d, i), T(77)); }); }
  if (what == 0) { same(P, Q, "reading a block through direct data access does not change it"); return; }
  if (what == 1) { T y = sy<T>::mk("y"); long q = pick("q", 0, v.size() - 1); { dd::Data<B, dd::inout, L> d(v.block()); typedef decltype(d.ptr()) PP; lay_ok<L>(d, v, true); long c = 0; each(v, [&](Index<V::dim> i) { CHECK((io<T, PP>::get(d.ptr(), off(d, i)) == at(u, i)), "memory delivered for updating holds the elements of the block"); if (c++ == q) { io<T, PP>::put(d.ptr(), off(d, i), y); set(u, i, y); } }); } same(P, Q, "an update through direct data access changes exactly the elements written"); return; }
  if (what == 2) { { dd::Data<B, dd::out, L> d(v.block()); typedef decltype(d.ptr()) PP; lay_ok<L>(d, v, true); each(v, [&](Index<V::dim> i) { T y = sy<T>::mk("y"); io<T, PP>::put(d.ptr(), off(d, i), y); set(u, i, y); }); } same(P, Q, "elements written through direct data access arrive in the block and nowhere else"); return; }
  // explicit synchronisation and caller-provided buffer of exactly the required size
  { typedef dd::Data<B, dd::inout, L> D; typedef typename D::ptr_type PP; length_type n = dd::required_buffer_size<L>(v.block()); bufs<PP> b(n ? n : 1, std::is_same<PP, T *>::value ? 1 : 2); T y = sy<T>::mk("y"), z = sy<T>::mk("z");
    { D d(v.block(), b.p); PP p = d.ptr(); CHECK((n != 0) == (adr(p) == adr(b.p)), "a caller-provided buffer is used exactly when a buffer is required"); CHECK((n != 0) == (d.cost() != 0), "access is free of cost exactly when no buffer is required");
      if (!n) { } Index<V::dim> f, l; long c = 0; each(v, [&](Index<V::dim> i) { if (!c++) f = i; l = i; CHECK((io<T, PP>::get(p, off(d, i)) == at(u, i)), "the buffer holds the elements of the block"); });
      io<T, PP>::put(p, off(d, f), y); set(u, f, y); d.sync_out(); same(P, Q, "sync_out stores the elements written so far"); set(v, l, z); set(u, l, z); d.sync_in(); each(v, [&](Index<V::dim> i) { CHECK((io<T, PP>::get(p, off(d, i)) == at(u, i)), "sync_in fetches the elements of the block"); }); }
    same(P, Q, "the block holds the elements written"); } }
// read-only access to blocks without storage
template <typename L, typename E, typename F> void reads(E const &e, F ref) { typedef typename E::block_type B; typedef typename E::value_type T; dd::Data<B, dd::in, L> d(e.block()); typedef decltype(d.ptr()) PP; lay_ok<L>(d, e, false); each(e, [&](Index<E::dim> i) { CHECK((io<T, PP>::get(d.ptr(), off(d, i)) == ref(i)), "memory delivered for an expression holds its elements"); }); }
typedef tuple<0,1,2> T012; typedef tuple<0,2,1> T021; typedef tuple<1,0,2> T102; typedef tuple<1,2,0> T120; typedef tuple<2,0,1> T201; typedef tuple<2,1,0> T210;
