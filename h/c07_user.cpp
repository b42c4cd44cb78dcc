// @property C07
// @bounds histories of 4 operations (5 in the thorough tier) over admit, release, rebind in each format, rebind to another extent, find, element writes and writes to user memory; vectors of 2 elements, matrices and tensors of 4 and 8 (2x2, 2x1x2), plus single round trips up to 3x3; every stored value symbolic
#include "dda.h"
typedef complex<float> cf;
template <typename T> struct mem { int f; T *a; std::vector<T> want; mem(int, length_type n) : f(0), a(new T[n]), want(n) {} T get(long k) const { return a[k]; } void put(long k, T v) { a[k] = v; want[k] = v; }
  template <typename B> void rebind(B &b) { b.rebind(a); } template <typename B, typename D> void rebind(B &b, D const &d) { b.rebind(a, d); }
  template <typename B> bool found(B &b) { T *p = 0; b.find(p); return p == a; } template <typename B> bool released(B &b, bool u) { T *p = 0; b.release(u, p); return p == a; } void kill() { delete[] a; } static int formats() { return 1; }
  template <typename B, typename D> B *make(D const &d) { return new B(d, a); } user_storage_type format() { return array_format; } };
template <typename R> struct mem<complex<R> > { typedef complex<R> T; int f; T *a; R *i, *s, *t; std::vector<T> want; mem(int f_, length_type n) : f(f_), a(0), i(0), s(0), t(0), want(n) { if (f == 0) a = new T[n]; else if (f == 1) i = new R[2 * n]; else { s = new R[n]; t = new R[n]; } }
  T get(long k) const { return f == 0 ? a[k] : f == 1 ? T(i[2 * k], i[2 * k + 1]) : T(s[k], t[k]); } void put(long k, T v) { if (f == 0) a[k] = v; else if (f == 1) { i[2 * k] = v.real(); i[2 * k + 1] = v.imag(); } else { s[k] = v.real(); t[k] = v.imag(); } want[k] = v; }
  template <typename B> void rebind(B &b) { if (f == 0) b.rebind(a); else if (f == 1) b.rebind(i); else b.rebind(s, t); } template <typename B, typename D> void rebind(B &b, D const &d) { if (f == 0) b.rebind(a, d); else if (f == 1) b.rebind(i, d); else b.rebind(s, t, d); }
  template <typename B> bool found(B &b) { if (f == 0) { T *p = 0; b.find(p); return p == a; } if (f == 1) { R *p = 0; b.find(p); return p == i; } R *p = 0, *q = 0; b.find(p, q); return (p == s) & (q == t); }
  template <typename B> bool released(B &b, bool u) { if (f == 0) { T *p = 0; b.release(u, p); return p == a; } if (f == 1) { R *p = 0; b.release(u, p); return p == i; } R *p = 0, *q = 0; b.release(u, p, q); return (p == s) & (q == t); }
  template <typename B, typename D> B *make(D const &d) { if (f == 0) return new B(d, a); if (f == 1) return new B(d, i); return new B(d, s, t); } void kill() { delete[] a; delete[] i; delete[] s; delete[] t; } static int formats() { return 3; } user_storage_type format() { return f == 0 ? array_format : f == 1 ? interleaved_format : split_format; } };
// offset of an element in user memory: dense in the dimension order of the block
template <typename O> long uoff(Domain<1> const &, Index<1> i) { return i[0]; }
template <typename O> long uoff(Domain<2> const &d, Index<2> i) { return (long)i[O::impl_dim0] * d[O::impl_dim1].size() + (long)i[O::impl_dim1]; }
template <typename O> long uoff(Domain<3> const &d, Index<3> i) { return ((long)i[O::impl_dim0] * d[O::impl_dim1].size() + (long)i[O::impl_dim1]) * d[O::impl_dim2].size() + (long)i[O::impl_dim2]; }
template <typename B> typename B::value_type bget(B const &b, Index<1> i) { return b.get(i[0]); } template <typename B> typename B::value_type bget(B const &b, Index<2> i) { return b.get(i[0], i[1]); } template <typename B> typename B::value_type bget(B const &b, Index<3> i) { return b.get(i[0], i[1], i[2]); }
template <typename B, typename T> void bput(B &b, Index<1> i, T v) { b.put(i[0], v); } template <typename B, typename T> void bput(B &b, Index<2> i, T v) { b.put(i[0], i[1], v); } template <typename B, typename T> void bput(B &b, Index<3> i, T v) { b.put(i[0], i[1], i[2], v); }
template <typename F> void idx(Domain<1> const &d, F f) { for (index_type i = 0; i < d.size(); ++i) f(Index<1>(i)); }
template <typename F> void idx(Domain<2> const &d, F f) { for (index_type i = 0; i < d[0].size(); ++i) for (index_type j = 0; j < d[1].size(); ++j) f(Index<2>(i, j)); }
template <typename F> void idx(Domain<3> const &d, F f) { for (index_type i = 0; i < d[0].size(); ++i) for (index_type j = 0; j < d[1].size(); ++j) for (index_type k = 0; k < d[2].size(); ++k) f(Index<3>(i, j, k)); }
template <typename B, dimension_type D> struct hist { typedef typename B::value_type T; typedef typename B::layout_type::order_type O; B *b; std::vector<mem<T> > ms; std::vector<T> blk; bool adm, known; Domain<D> dom;
  mem<T> &cur() { return ms.back(); }
  void fill() { for (index_type k = 0; k < dom.size(); ++k) cur().put(k, sy<T>::mk("u")); }
  hist(Domain<D> d, int f) : b(0), adm(false), known(false), dom(d) { ms.push_back(mem<T>(f, d.size())); fill(); b = cur().template make<B>(d); state(); }
  void state() { CHECK(b->admitted() == adm, "admitted() tells whether the block is admitted"); CHECK(b->user_storage() == cur().format(), "user_storage() tells the format of the user memory"); CHECK(cur().found(*b), "find returns the user memory"); CHECK(b->size() == dom.size(), "the block has the extents it was given"); for (dimension_type k = 0; k < D; ++k) CHECK(b->size(D, k) == dom[k].size(), "the block has the extents it was given"); }
  void block() { if (adm & known) idx(dom, [&](Index<D> i) { CHECK(bget(*b, i) == blk[uoff<O>(dom, i)], "an admitted block holds the values of the user memory and later writes"); }); }
  void user() { for (auto &m : ms) for (index_type k = 0; k < m.want.size(); ++k) CHECK(m.get(k) == m.want[k], "user memory holds exactly the values of the released block"); }
  void refresh() { for (index_type k = 0; k < dom.size(); ++k) cur().want[k] = cur().get(k); }
  void admit(bool u) { if (!adm) { if (u) { blk = cur().want; known = true; } else { known = false; blk.assign(dom.size(), T()); } } b->admit(u); adm = true; if (!known) { idx(dom, [&](Index<D> i) { T v = sy<T>::mk("w"); bput(*b, i, v); blk[uoff<O>(dom, i)] = v; }); known = true; } block(); }
  void write(long q) { long c = 0; idx(dom, [&](Index<D> i) { if (c++ == q) { T v = sy<T>::mk("p"); bput(*b, i, v); blk[uoff<O>(dom, i)] = v; } }); block(); }
  void release(bool u, bool p) { if (p) CHECK(cur().released(*b, u), "release returns the user memory"); else b->release(u); if (adm) { adm = false; if (u) { cur().want = blk; user(); } else refresh(); } }
  void rebind(int f, Domain<D> d, bool dm) { refresh(); ms.push_back(mem<T>(f, d.size())); dom = d; fill(); if (dm) cur().rebind(*b, d); else cur().rebind(*b); known = false; }
  bool step(int op) { switch (op) {
    case 0: admit(true); break; case 1: if (adm) return false; admit(false); break;
    case 2: if (!adm) return false; write(dom.size() - 1); break;
    case 3: release(true, false); break; case 4: release(true, true); break; case 5: release(false, false); break;
    case 6: if (adm) return false; fill(); break;
    case 7: case 8: case 9: if (adm || op - 7 >= mem<T>::formats()) return false; rebind(op - 7, dom, false); break;
    case 10: case 11: { int f = op == 10 ? 0 : mem<T>::formats() - 1; if (adm || (op == 11 && f == 0)) return false; rebind(f, other(dom), true); break; } } state(); return true; }
  static Domain<1> other(Domain<1> d) { return Domain<1>(d.size() == 2 ? 3 : 2); } static Domain<2> other(Domain<2> d) { return Domain<2>(d[1].size(), d[0].size() + (d[0].size() == 2 ? 1 : -1)); } static Domain<3> other(Domain<3> d) { return Domain<3>(d[2].size(), d[1].size(), d[0].size()); }
  ~hist() { if (adm) release(true, true); user(); delete b; for (auto &m : ms) m.kill(); } };
template <typename B, dimension_type D> void run(Domain<D> d, int f, int first, int steps) { hist<B, D> h(d, f); if (!h.step(first)) return; for (int k = 1; k < steps; ++k) if (!h.step(pick("op", 0, mem<typename B::value_type>::formats() == 1 ? 10 : 11))) return; }
typedef Strided<1, cf, Layout<1, row1_type, dense, split_complex> > S1; typedef Strided<1, cf, Layout<1, row1_type, dense, interleaved_complex> > I1; typedef Strided<2, cf, Layout<2, C2, dense, split_complex> > S2; typedef Dense<3, float, T120> D3;
static void go(int p, int n) { int op = p % 12; switch (p / 12) { case 0: run<Dense<1, float>, 1>(Domain<1>(2), 0, op, n); break; case 1: case 2: case 3: run<Dense<1, cf>, 1>(Domain<1>(2), p / 12 - 1, op, n); break; case 4: case 5: case 6: run<S1, 1>(Domain<1>(2), p / 12 - 4, op, n); break; case 7: case 8: case 9: run<I1, 1>(Domain<1>(2), p / 12 - 7, op, n); break;
  case 10: run<Dense<2, int, col2_type>, 2>(Domain<2>(2, 2), 0, op, n); break; case 11: case 12: case 13: run<S2, 2>(Domain<2>(2, 2), p / 12 - 11, op, n); break; case 14: run<D3, 3>(Domain<3>(2, 1, 2), 0, op, n); break; } }
// @entry c07_hist params=0-179
ENTRY(c07_hist) { vsipl init; go(vsx_param(), 3); }
// @entry c07_hist_deep params=0-179 tier=thorough
ENTRY(c07_hist_deep) { vsipl init; go(vsx_param(), 5); }
// round trips over all extents and dimension orders
template <typename B, dimension_type D> void trip(Domain<D> d, int f) { hist<B, D> h(d, f); h.step(0); for (index_type q = 0; q < d.size(); q += 2) h.write(q); h.step(4); h.step(6); h.step(0); h.step(3); h.step(10); h.step(0); h.step(2); h.step(4); h.user(); }
// @entry c07_trip params=0-17
ENTRY(c07_trip) { vsipl init; int p = vsx_param(); length_type a = len("a", 1, 3), m = p > 4 ? len("m", 1, p < 9 ? 3 : 2) : 1, n = p > 8 ? len("n", 1, 2) : 1; Domain<1> d1(a); Domain<2> d2(a, m); Domain<3> d3(a, m, n); switch (p) { case 0: trip<Dense<1, int>, 1>(d1, 0); break; case 1: trip<Dense<1, cf>, 1>(d1, 2); break; case 2: trip<S1, 1>(d1, 0); break; case 3: trip<S1, 1>(d1, 1); break; case 4: trip<S1, 1>(d1, 2); break;
  case 5: trip<Dense<2, float>, 2>(d2, 0); break; case 6: trip<Dense<2, float, col2_type>, 2>(d2, 0); break; case 7: trip<Dense<2, cf, col2_type>, 2>(d2, 2); break; case 8: trip<S2, 2>(d2, 1); break;
#define TT(O) trip<Dense<3, float, O>, 3>(d3, 0); break;
  case 9: TT(T012) case 10: TT(T021) case 11: TT(T102) case 12: TT(T120) case 13: TT(T201) case 14: TT(T210) case 15: trip<Dense<3, cf, T201>, 3>(d3, 1); break; case 16: trip<Dense<3, cf, T120>, 3>(d3, 2); break; case 17: trip<Strided<3, cf, Layout<3, T102, dense, split_complex> >, 3>(d3, 0); break; } }
// blocks without user memory
template <typename B> void none(Domain<1> d) { typedef typename B::value_type T; B b(d); std::vector<T> w; for (index_type i = 0; i < d.size(); ++i) { T v = sy<T>::mk("v"); b.put(i, v); w.push_back(v); } CHECK(b.user_storage() == no_user_format, "a block without user memory says so"); T *p = (T *)1; b.find(p); CHECK(p == 0, "find returns no memory for a block without user memory");
  bool up = vsx_param() & 1; p = (T *)1; if (vsx_param() & 2) b.release(up); else { b.release(up, p); CHECK(p == 0, "release returns no memory for a block without user memory"); } b.admit(up); for (index_type i = 0; i < d.size(); ++i) CHECK(b.get(i) == w[i], "releasing and admitting a block without user memory keeps its values");
  b.release(false); mem<T> m(0, d.size()); for (index_type i = 0; i < d.size(); ++i) m.put(i, sy<T>::mk("m")); m.rebind(b); b.admit(true); CHECK(b.user_storage() == array_format, "user memory can be bound to a released block"); for (index_type i = 0; i < d.size(); ++i) CHECK(b.get(i) == m.want[i], "a block bound to user memory holds its values"); m.put(0, sy<T>::mk("q")); b.put(0, m.want[0]); CHECK(m.released(b, true), "release returns the user memory"); for (index_type i = 0; i < d.size(); ++i) CHECK(m.get(i) == m.want[i], "user memory holds exactly the values of the released block"); m.kill(); }
// @entry c07_none params=0-11
ENTRY(c07_none) { vsipl init; Domain<1> d(len("n", 1, 3)); switch (vsx_param() / 4) { case 0: none<Dense<1, float> >(d); break; case 1: none<Dense<1, cf> >(d); break; case 2: none<S1>(d); break; } }
