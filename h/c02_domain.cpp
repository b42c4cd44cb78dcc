// @property C02
// @bounds first 0..1000, stride -20..20, length 1..40; intersections of first 0..15, length 1..15, stride 1..4 (equality against explicit index sets: length 2..5); offsets/factors -20..20; extents 1..4 for traversals
// @assume a domain is valid (its indices are non-negative) and non-empty; equality is stated for domains with at least two indices and non-zero stride, or identical triples
#include "c.h"
#include <ovxx/domain_utils.hpp>
typedef Domain<1> D1;
struct T3 { long i, s, n; };
static T3 tr(char const *a, char const *b, char const *c, long lo = 1, long hi = 40) { T3 t; t.i = vsx_int(a, 0, 1000); t.s = vsx_int(b, -20, 20); t.n = vsx_int(c, lo, hi); vsx_assume(t.i + t.s * (t.n - 1) >= 0); return t; }
static D1 mk(T3 const &t) { return D1(t.i, t.s, t.n); }
static bool is(D1 const &d, long i, long s, long n) { return (long)d.first() == i && (long)d.stride() == s && (long)d.length() == n && (long)d.size() == n; }
// @entry c02_arith
ENTRY(c02_arith) {
  vsipl init; T3 a = tr("i", "s", "n"); D1 d = mk(a); long k = vsx_int("k", 0, 20), q = vsx_int("q", 0, 39); vsx_assume(q < a.n);
  CHECK(is(d, a.i, a.s, a.n), "a domain reports its first index, stride and length");
  CHECK((long)d.impl_nth(q) == a.i + a.s * q, "the n-th index of a domain is first + n * stride");
  CHECK((long)d.impl_last() == a.i + a.s * (a.n - 1), "the last index of a domain");
  long lo = a.s < 0 ? a.i + a.s * (a.n - 1) : a.i;
  if (lo + k >= 0) { CHECK(is(d + k, a.i + k, a.s, a.n), "domain + k shifts every index by k"); CHECK(is(k + d, a.i + k, a.s, a.n), "k + domain equals domain + k"); }
  if (lo - k >= 0) CHECK(is(d - k, a.i - k, a.s, a.n), "domain - k shifts every index by -k");
  if (a.i + a.s * k * (a.n - 1) >= 0) { CHECK(is(d * k, a.i, a.s * k, a.n), "domain * k multiplies the stride"); CHECK(is(k * d, a.i, a.s * k, a.n), "k * domain equals domain * k"); }
  CHECK(is(d, a.i, a.s, a.n), "domain arithmetic leaves its operand unchanged");
  D1 e(d); CHECK(is(e, a.i, a.s, a.n), "copying a domain"); D1 f; CHECK(is(f, 0, 1, 1), "default domain"); f = d; CHECK(is(f, a.i, a.s, a.n), "assigning a domain");
  CHECK(d.element_conformant(D1(a.n)), "domains of equal length are conformant"); CHECK(!d.element_conformant(D1(a.n + 1)), "domains of different length are not conformant");
}
// @entry c02_div
ENTRY(c02_div) { vsipl init; T3 a = tr("i", "s", "n"); long k = pick("k", 1, 6); D1 d = mk(a); if (a.s % k == 0) CHECK(is(d / k, a.i, a.s / k, a.n), "domain / k divides the stride"); }
// @entry c02_eq
ENTRY(c02_eq) {
  vsipl init; T3 a = tr("i", "s", "n", 2, 40), b = tr("j", "t", "m", 2, 40); vsx_assume(a.s != 0 && b.s != 0);
  D1 x = mk(a), y = mk(b); bool eq = x == y;
  long alo = a.s < 0 ? a.i + a.s * (a.n - 1) : a.i, ahi = a.s < 0 ? a.i : a.i + a.s * (a.n - 1), blo = b.s < 0 ? b.i + b.s * (b.n - 1) : b.i, bhi = b.s < 0 ? b.i : b.i + b.s * (b.n - 1);
  CHECK(eq == (a.n == b.n && alo == blo && ahi == bhi), "two domains are equal exactly when they contain the same indices");
  CHECK((x != y) == !eq, "!= is the negation of =="); CHECK((y == x) == eq, "equality of domains is symmetric"); CHECK(x == x, "a domain equals itself");
}
// @entry c02_eq_set params=2-5
ENTRY(c02_eq_set) {
  vsipl init; long n = vsx_param(); T3 a = tr("i", "s", "n", n, n), b = tr("j", "t", "m", n, n); vsx_assume(a.s != 0 && b.s != 0);
  bool sub = true, sup = true; for (long k = 0; k < n; ++k) { bool in = false, in2 = false; for (long l = 0; l < n; ++l) { in |= a.i + k * a.s == b.i + l * b.s; in2 |= b.i + k * b.s == a.i + l * a.s; } sub &= in; sup &= in2; }
  CHECK((mk(a) == mk(b)) == (sub & sup), "two domains are equal exactly when they contain the same indices");
}
// @entry c02_multi params=2-3
ENTRY(c02_multi) {
  vsipl init; T3 t[3]; t[0] = tr("i0", "s0", "n0", 2, 6); t[1] = tr("i1", "s1", "n1", 2, 6); t[2] = tr("i2", "s2", "n2", 2, 6); long k = vsx_int("k", 0, 20);
  T3 u[3]; for (int d = 0; d < 3; ++d) u[d] = t[d]; int c = vsx_int("c", 0, 2); u[c].i += vsx_int("e", 0, 1); u[c].n += vsx_int("f", 0, 1); 
  vsx_assume(u[c].i + u[c].s * (u[c].n - 1) >= 0); for (int d = 0; d < 3; ++d) vsx_assume(t[d].s != 0);
  if (vsx_param() == 2) {
    Domain<2> a(mk(t[0]), mk(t[1])), b(mk(u[0]), mk(u[1])); bool same = c == 2 || (u[c].i == t[c].i && u[c].n == t[c].n);
    CHECK((long)a.size() == t[0].n * t[1].n, "the size of a 2-D domain is the product of its lengths");
    for (int d = 0; d < 2; ++d) { CHECK(is(a[d], t[d].i, t[d].s, t[d].n), "each dimension of a domain is kept"); CHECK(is((a + k)[d], t[d].i + k, t[d].s, t[d].n), "domain + k acts on every dimension");  }
    CHECK((a == b) == (same || (mk(t[c]) == mk(u[c]))), "multi-dimensional domains are equal exactly when every dimension is"); CHECK((a != b) == !(a == b), "!= is the negation of ==");
    CHECK(a.element_conformant(b) == (c == 2 || u[c].n == t[c].n), "conformance compares every length");
    CHECK(a.product_conformant(b) == (t[1].n == u[0].n), "product conformance compares the inner lengths");
    Domain<2> e(a); e = b; for (int d = 0; d < 2; ++d) CHECK(is(e[d], u[d].i, u[d].s, u[d].n), "assigning a domain copies every dimension");
  } else {
    Domain<3> a(mk(t[0]), mk(t[1]), mk(t[2])), b(mk(u[0]), mk(u[1]), mk(u[2])); bool same = u[c].i == t[c].i && u[c].n == t[c].n;
    CHECK((long)a.size() == t[0].n * t[1].n * t[2].n, "the size of a 3-D domain is the product of its lengths");
    for (int d = 0; d < 3; ++d) { CHECK(is(a[d], t[d].i, t[d].s, t[d].n), "each dimension of a domain is kept"); CHECK(is((a + k)[d], t[d].i + k, t[d].s, t[d].n), "domain + k acts on every dimension"); }
    CHECK((a == b) == (same || (mk(t[c]) == mk(u[c]))), "multi-dimensional domains are equal exactly when every dimension is");
    CHECK(a.element_conformant(b) == (u[c].n == t[c].n), "conformance compares every length");
    Domain<3> e; e = b; for (int d = 0; d < 3; ++d) CHECK(is(e[d], u[d].i, u[d].s, u[d].n), "assigning a domain copies every dimension");
  }
}
// @entry c02_mul_multi params=2-3
ENTRY(c02_mul_multi) {
  vsipl init; T3 t[3]; char const *ni[] = {"i0", "i1", "i2"}, *ns[] = {"s0", "s1", "s2"}, *nn[] = {"n0", "n1", "n2"};
  for (int d = 0; d < 3; ++d) { t[d].i = vsx_int(ni[d], 0, 1000); t[d].s = vsx_int(ns[d], 0, 20); t[d].n = vsx_int(nn[d], 1, 40); } long k = vsx_int("k", 0, 12), m = vsx_int("m", 0, 20);
  for (int d = 0; d < 3; ++d) vsx_assume(t[d].i >= m);
  if (vsx_param() == 2) { Domain<2> a(mk(t[0]), mk(t[1])); for (int d = 0; d < 2; ++d) { CHECK(is((a * k)[d], t[d].i, t[d].s * k, t[d].n), "domain * k acts on every dimension"); CHECK(is((a - m)[d], t[d].i - m, t[d].s, t[d].n), "domain - k acts on every dimension"); } }
  else { Domain<3> a(mk(t[0]), mk(t[1]), mk(t[2])); for (int d = 0; d < 3; ++d) { CHECK(is((a * k)[d], t[d].i, t[d].s * k, t[d].n), "domain * k acts on every dimension"); CHECK(is((a - m)[d], t[d].i - m, t[d].s, t[d].n), "domain - k acts on every dimension"); } }
}
// the intersection used to split distributed data contains exactly the common indices
static void inter(long st) {
  vsipl init; long a = vsx_int("a", 0, 15), n = vsx_int("n", 1, 15), b = vsx_int("b", 0, 15), m = vsx_int("m", 1, 7), x = vsx_int("x", 0, 60);
  D1 r; bool any = ovxx::intersect(D1(a, 1, n), D1(b, st, m), r);
  bool in = x >= a && x < a + n && x >= b && (x - b) % st == 0 && (x - b) / st < m;
  bool inr = any && x >= (long)r.first() && (x - (long)r.first()) % (long)r.stride() == 0 && (x - (long)r.first()) / (long)r.stride() < (long)r.length();
  CHECK(in == inr, "the intersection of two domains contains exactly the common indices");
  if (any) { CHECK((long)r.length() >= 1 && ((long)r.stride() == st), "a non-empty intersection is a valid domain");
    // positions of the common indices inside either domain
    D1 s = ovxx::subset_from_intr(D1(a, 1, n), r); CHECK((long)s.first() == (long)r.first() - a && s.length() == r.length(), "offset of an intersection inside a domain"); 
    D1 q(vsx_int("qi", 0, 50), (vsx_int("qs2", 0, 1) ? 3 : 1), n); D1 p = ovxx::apply_intr(q, D1(a, 1, n), r); long k = vsx_int("kk", 0, 6); vsx_assume(k < (long)r.length());
    CHECK((long)p.impl_nth(k) == (long)q.first() + ((long)r.impl_nth(k) - a) * (long)q.stride(), "mapping an intersection through a parallel domain keeps the correspondence"); }
}
// @entry c02_intersect params=1-4 heavy=9
ENTRY(c02_intersect) { inter(vsx_param()); }
// @entry c02_intersect_more params=5-7 tier=thorough
ENTRY(c02_intersect_more) { inter(vsx_param()); }
// traversal in a dimension order visits every index exactly once, in that order
template <typename O> void trav3() {
  long e[3] = {pick("e0", 1, 3), pick("e1", 1, 3), pick("e2", 1, 3)}; ovxx::Length<3> ext(e[0], e[1], e[2]); long cnt = 0; Index<3> i(0, 0, 0);
  for (; ovxx::valid(ext, i); ovxx::next<O>(ext, i), ++cnt) { long lin = ((long)i[O::impl_dim0] * e[O::impl_dim1] + (long)i[O::impl_dim1]) * e[O::impl_dim2] + (long)i[O::impl_dim2]; CHECK(lin == cnt, "traversal visits the indices in the requested order"); if (cnt > 30) break; }
  CHECK(cnt == e[0] * e[1] * e[2], "traversal visits every index once"); }
template <typename O> void trav2() {
  long e[2] = {pick("e0", 1, 4), pick("e1", 1, 4)}; ovxx::Length<2> ext(e[0], e[1]); long cnt = 0; Index<2> i(0, 0);
  for (; ovxx::valid(ext, i); ovxx::next<O>(ext, i), ++cnt) { long lin = (long)i[O::impl_dim0] * e[O::impl_dim1] + (long)i[O::impl_dim1]; CHECK(lin == cnt, "traversal visits the indices in the requested order"); if (cnt > 30) break; }
  CHECK(cnt == e[0] * e[1], "traversal visits every index once"); }
// @entry c02_traverse params=0-7
ENTRY(c02_traverse) { vsipl init; switch (vsx_param()) { case 0: trav2<tuple<0,1,2> >(); break; case 1: trav2<tuple<1,0,2> >(); break; case 2: trav3<tuple<0,1,2> >(); break; case 3: trav3<tuple<0,2,1> >(); break; case 4: trav3<tuple<1,0,2> >(); break; case 5: trav3<tuple<1,2,0> >(); break; case 6: trav3<tuple<2,0,1> >(); break; case 7: trav3<tuple<2,1,0> >(); break; } }
// index arithmetic
// @entry c02_index
ENTRY(c02_index) { vsipl init; Index<3> a(vsx_int("a", 0, 1000), vsx_int("b", 0, 1000), vsx_int("c", 0, 1000)), b(vsx_int("p", 0, 1000), vsx_int("q", 0, 1000), vsx_int("r", 0, 1000)); Index<3> s = a + b, d = s - b;
  for (int k = 0; k < 3; ++k) { CHECK(s[k] == a[k] + b[k], "index addition is elementwise"); CHECK(d[k] == a[k], "index subtraction undoes addition"); }
  CHECK((a == b) == (a[0] == b[0] && a[1] == b[1] && a[2] == b[2]), "indices are equal exactly when every component is"); Index<2> e(a[0], a[1]), f(b[0], b[1]); CHECK((e == f) == (a[0] == b[0] && a[1] == b[1]), "indices are equal exactly when every component is"); CHECK((Index<1>(a[0]) == Index<1>(b[0])) == (a[0] == b[0]), "indices are equal exactly when every component is"); }
