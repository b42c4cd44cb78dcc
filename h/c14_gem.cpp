// @property C14
// @stub blas.c
// @bounds gemp and gems: up to 3 by 2 by 3 elements, every operation on every operand, every dimension order, windows with strides -2 to 2 in one operand at a time or all of them
#include "mv.h"
struct win { long r[3], c[3]; win() { int which = (int)pick("which", 0, 3), sh = (int)pick("sh", 0, SHAPES - 1); vsx_assume((which < 3) | (sh > 0)); for (int k = 0; k < 3; ++k) if (which == k || which == 3) shape(sh, r[k], c[k]); else r[k] = c[k] = 1; } };
template <typename V, typename T> void putop(V v, std::vector<T> const &x, mat_op_type o) { bool t = o == mat_trans || o == mat_herm, c = o == mat_herm || o == mat_conj; length_type n = t ? v.size(0) : v.size(1); for (index_type i = 0; i < v.size(0); ++i) for (index_type j = 0; j < v.size(1); ++j) { T e = t ? x[j * n + i] : x[i * n + j]; v.put(i, j, c ? cjg<T>::f(e) : e); } }
template <mat_op_type OA, mat_op_type OB, typename A, typename B, typename C> void gp() { typedef typename C::T T; length_type m = len("m", 1, 3), k = len("k", 1, 2), n = len("n", 1, 3); win s; T al = sy<T>::mk("al"), be = sy<T>::mk("be"); if (pick("b0", 0, 1) == 0) be = T(0); std::vector<T> a = syv<T>("a", m * k), b = syv<T>("b", k * n), c = syv<T>("c", m * n); bool ta = OA == mat_trans || OA == mat_herm, tb = OB == mat_trans || OB == mat_herm; A x(ta ? k : m, ta ? m : k, s.r[0], s.c[0]); B y(tb ? n : k, tb ? k : n, s.r[1], s.c[1]); C r(m, n, s.r[2], s.c[2]); putop(x.v, a, OA); putop(y.v, b, OB); put2(r.v, c);
  gemp<OA, OB>(al, x.v, y.v, be, r.v); for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) { T e = T(); for (index_type l = 0; l < k; ++l) e += a[i * k + l] * b[l * n + j]; CHECK(r.v.get(i, j) == al * e + be * c[i * n + j], "gemp is alpha op(A) op(B) + beta C"); } r.outside("gemp writes nothing outside its destination"); }
template <mat_op_type OA, typename A, typename C> void gs() { typedef typename C::T T; length_type m = len("m", 1, 3), n = len("n", 1, 3); win s; T al = sy<T>::mk("al"), be = sy<T>::mk("be"); std::vector<T> a = syv<T>("a", m * n), c = syv<T>("c", m * n); bool ta = OA == mat_trans || OA == mat_herm; A x(ta ? n : m, ta ? m : n, s.r[0], s.c[0]); C r(m, n, s.r[2], s.c[2]); putop(x.v, a, OA); put2(r.v, c); gems<OA>(al, x.v, be, r.v); for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) CHECK(r.v.get(i, j) == al * a[i * n + j] + be * c[i * n + j], "gems is alpha op(A) + beta C"); r.outside("gems writes nothing outside its destination"); }
// @entry c14_gemp params=0-13
ENTRY(c14_gemp) { vsipl init; switch (vsx_param()) {
  case 0: gp<mat_ntrans, mat_ntrans, wm<MR>, wm<MR>, wm<MR> >(); break; case 1: gp<mat_trans, mat_ntrans, wm<MR>, wm<MC>, wm<MR> >(); break; case 2: gp<mat_ntrans, mat_trans, wm<MC>, wm<MR>, wm<MC> >(); break; case 3: gp<mat_trans, mat_trans, wm<DMC>, wm<DMR>, wm<DMC> >(); break;
  case 4: gp<mat_herm, mat_conj, wm<MR>, wm<MC>, wm<MC> >(); break; case 5: gp<mat_ntrans, mat_ntrans, wm<ZC>, wm<ZR>, wm<ZR> >(); break; case 6: gp<mat_herm, mat_ntrans, wm<ZR>, wm<ZR>, wm<ZR> >(); break; case 7: gp<mat_ntrans, mat_herm, wm<ZC>, wm<ZR>, wm<ZC> >(); break; case 8: gp<mat_conj, mat_trans, wm<ZR>, wm<ZC>, wm<ZR> >(); break; case 9: gp<mat_trans, mat_herm, wm<WR>, wm<WR>, wm<WC> >(); break;
  case 10: gp<mat_ntrans, mat_ntrans, wm<SPR>, wm<ZR>, wm<ZR> >(); break; case 11: gp<mat_trans, mat_ntrans, wm<ZR>, wm<ZR>, wm<SPC> >(); break; case 12: gp<mat_ntrans, mat_ntrans, wm<MC>, wm<MC>, wm<MR> >(); break; case 13: gp<mat_trans, mat_trans, wm<ZC>, wm<ZC>, wm<ZC> >(); break; } }
// @entry c14_gems params=0-5
ENTRY(c14_gems) { vsipl init; switch (vsx_param()) { case 0: gs<mat_ntrans, wm<MR>, wm<MC> >(); break; case 1: gs<mat_trans, wm<MR>, wm<MR> >(); break; case 2: gs<mat_herm, wm<ZR>, wm<ZC> >(); break; case 3: gs<mat_conj, wm<ZC>, wm<SPR> >(); break; case 4: gs<mat_herm, wm<DMC>, wm<DMR> >(); break; case 5: gs<mat_trans, wm<SPC>, wm<ZR> >(); break; } }
