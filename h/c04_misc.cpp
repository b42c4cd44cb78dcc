// @property C04
// @bounds vectors of 1-3 elements, matrices up to 3x2, tensors 2x1x2; every element, scalar operand and probed position symbolic; element types float, double, int, bool, complex<float>
#include "c04.h"
// @entry c04_complex params=0-11
ENTRY(c04_complex) { vsipl init; length_type n = len("n", 1, 3); int p = vsx_param(); Vector<cf> a(n), d(n), q(n); Vector<cf, SP1> b(n), e(n); Vector<float> r(n), t(n); float s = vsx_f32("s", -50, 50);
  std::vector<cf> x(n), y(n); std::vector<float> z(n); for (index_type i = 0; i < n; ++i) { x[i] = sy<cf>::mk("x"); y[i] = sy<cf>::mk("y"); z[i] = vsx_f32("z", -100, 100); a.put(i, x[i]); b.put(i, y[i]); r.put(i, z[i]); }
  index_type k = vsx_pick(vsx_int("k", 0, n - 1)); cf X = x[k], Y = y[k]; float Z = z[k];
#define AT(v, w) CHECK(v.get(k) == (w), "mixed real and complex expressions follow complex arithmetic element by element")
  switch (p) {
  case 0: e = a; AT(e, X); d = b; AT(d, Y); e = b; AT(e, Y); break;
  case 1: e = a * b; AT(e, mul_(X, Y)); d = e + b; AT(d, mul_(X, Y) + Y); break;
  case 2: d = r * b; AT(d, cf(Z * Y.real(), Z * Y.imag())); e = a + r; AT(e, cf(X.real() + Z, X.imag())); d = r - a; AT(d, cf(Z - X.real(), -X.imag())); break;
  case 3: d = s * b; AT(d, cf(s * Y.real(), s * Y.imag())); e = a - s; AT(e, cf(X.real() - s, X.imag())); d = cf(1, 2) * r; AT(d, cf(Z, 2 * Z)); break;
  case 4: d = conj(a) + b; AT(d, cf(X.real() + Y.real(), Y.imag() - X.imag())); e = a * conj(b); AT(e, mul_(X, cf(Y.real(), -Y.imag()))); break;
  case 5: d = jmul(a, b); AT(d, mul_(X, cf(Y.real(), -Y.imag()))); e = jmul(b, a); AT(e, mul_(Y, cf(X.real(), -X.imag()))); break;
  case 6: t = real(b); AT(t, Y.real()); t = imag(a); AT(t, X.imag()); t = magsq(b); AT(t, Y.real() * Y.real() + Y.imag() * Y.imag()); break;
  case 7: t = maxmgsq(a, b); { float u = X.real() * X.real() + X.imag() * X.imag(), v = Y.real() * Y.real() + Y.imag() * Y.imag(); AT(t, u > v ? u : v); t = minmgsq(a, b); AT(t, u < v ? u : v); } break;
  case 8: d = a; d.real() = r; AT(d, cf(Z, X.imag())); d.imag() += real(b); AT(d, cf(Z, X.imag() + Y.real())); e = d; e.imag() = b.real() * r; AT(e, cf(Z, Y.real() * Z)); break;
  case 9: d = a; d *= r; AT(d, cf(Z * X.real(), Z * X.imag())); d += s; AT(d, cf(Z * X.real() + s, Z * X.imag())); e = b; e *= a; AT(e, mul_(X, Y)); e -= r; AT(e, mul_(X, Y) - Z); break;
  case 10: d = ma(a, r, b); AT(d, cf(X.real() * Z + Y.real(), X.imag() * Z + Y.imag())); d = am(a, b, r); AT(d, cf((X.real() + Y.real()) * Z, (X.imag() + Y.imag()) * Z)); d = expoavg(s, a, b); AT(d, cf(s * X.real() + (1 - s) * Y.real(), s * X.imag() + (1 - s) * Y.imag())); break;
  case 11: d = ite(r > s, a, conj(a)); AT(d, Z > s ? X : cf(X.real(), -X.imag())); d = -b + +a; AT(d, X - Y); d = cmplx(r, t = r * s); AT(d, cf(Z, Z * s)); break;
  } }
// logical functions
// @entry c04_logic params=0
ENTRY(c04_logic) { vsipl init; length_type n = len("n", 1, 3); Vector<bool> a(n), b(n), o(n); Vector<float> f(n), g(n); index_type k = vsx_pick(vsx_int("k", 0, n - 1)); bool x = 0, y = 0; float u = 0, v = 0;
  for (index_type i = 0; i < n; ++i) { bool p = vsx_int("p", 0, 1), q = vsx_int("q", 0, 1); float h = vsx_f32("h", -9, 9), w = vsx_f32("w", -9, 9); a.put(i, p); b.put(i, q); f.put(i, h); g.put(i, w); if (i == k) { x = p; y = q; u = h; v = w; } }
#define BT(e) CHECK(o.get(k) == (e), "logical and relational functions act element by element")
  o = land(a, b); BT(x & y); o = lor(a, b); BT(x | y); o = lxor(a, b); BT(x != y); o = lnot(a); BT(!x); o = a && b; BT(x & y); o = a || b; BT(x | y); o = !a; BT(!x); o = a ^ b; BT(x != y);
  o = eq(f, g); BT(u == v); o = ne(f, g); BT(u != v); o = lt(f, g); BT(u < v); o = le(f, g); BT(u <= v); o = gt(f, g); BT(u > v); o = ge(f, g); BT(u >= v); o = f < 3.f; BT(u < 3); o = 2.f <= g; BT(2 <= v); o = (f > g) && (g != 0.f); BT((u > v) & (v != 0)); }
// division: exact on exact quotients
// @entry c04_div params=0-3
ENTRY(c04_div) { vsipl init; length_type n = len("n", 1, 3); index_type k = vsx_pick(vsx_int("k", 0, n - 1)); int p = vsx_param();
  if (p < 2) { Vector<int> a(n), b(n), o(n); int x = 0, y = 0, s = vsx_int("s", 1, 9); for (index_type i = 0; i < n; ++i) { int u = vsx_int("u", -50, 50), v = vsx_int("v", 1, 9); a.put(i, u); b.put(i, v); if (i == k) x = u, y = v; }
    if (p == 0) { o = a / b; CHECK(o.get(k) == x / y, "element-wise quotient"); o = a; o /= b; CHECK(o.get(k) == x / y, "element-wise quotient assignment"); } else { o = a / s; CHECK(o.get(k) == x / s, "quotient by a scalar"); o = s / b; CHECK(o.get(k) == s / y, "quotient of a scalar"); o = a; o /= s; CHECK(o.get(k) == x / s, "quotient assignment by a scalar"); } }
  else { Vector<float> a(n), b(n), o(n); float x = 0, y = 0, s = vsx_f32("s", 1, 9); for (index_type i = 0; i < n; ++i) { float u = vsx_f32("u", -50, 50), v = vsx_f32("v", 1, 9); a.put(i, u); b.put(i, v); if (i == k) x = u, y = v; }
    if (p == 2) { o = a / b; CHECK(o.get(k) == x / y, "element-wise quotient"); o = div(a, b); CHECK(o.get(k) == x / y, "div"); o = a; o /= b; CHECK(o.get(k) == x / y, "element-wise quotient assignment"); o = recip(b); CHECK(o.get(k) == 1 / y, "reciprocal"); } else { o = a / s; CHECK(o.get(k) == x / s, "quotient by a scalar"); o = s / b; CHECK(o.get(k) == s / y, "quotient of a scalar"); o = a; o /= s; CHECK(o.get(k) == x / s, "quotient assignment by a scalar"); } } }
