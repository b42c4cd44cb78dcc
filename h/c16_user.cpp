// @property C16
// @bounds user functions: function objects, function pointers and functors of one to three arguments on vectors up to 4 elements and matrices up to 3 by 3
#include "mv.h"
#include <vsip/impl/fns_userelt.hpp>
#include <functional>
static float usq(float a) { return a * a + 1; } static float usub(float a, float b) { return a - 2 * b; } static float fma3(float a, float b, float c) { return a * b - c; } static double mix(float a, double b) { return 3 * a + b; } static int trunc3(float a) { return a > 3 ? 1 : 0; }
struct cube { typedef float argument_type; typedef float result_type; float operator()(float a) const { return a * a * a; } }; struct subf { typedef float first_argument_type; typedef float second_argument_type; typedef float result_type; float operator()(float a, float b) const { return a - b * b; } };
struct scale { float k; float operator()(float a) const { return k * a; } float operator()(float a, float b) const { return k * a - b; } float operator()(float a, float b, float c) const { return a * b + k * c; } };
template <typename A> void vec() { length_type n = len("n", 1, 4); long s = pick("s", -2, 2); vsx_assume(s != 0); std::vector<float> a = syv<float>("a", n), b = syv<float>("b", n), c = syv<float>("c", n); A x(n, s), y(n, s), w(n, s); put1(x.v, a); put1(y.v, b); put1(w.v, c); A r(n, 1); scale k = {sy<float>::mk("k")};
  r.v = unary(usq, x.v); for (index_type i = 0; i < n; ++i) CHECK(r.v.get(i) == usq(a[i]), "a function pointer is applied to every element"); r.v = binary(usub, x.v, y.v); for (index_type i = 0; i < n; ++i) CHECK(r.v.get(i) == usub(a[i], b[i]), "a function pointer of two arguments"); r.v = ternary(fma3, x.v, y.v, w.v); for (index_type i = 0; i < n; ++i) CHECK(r.v.get(i) == fma3(a[i], b[i], c[i]), "a function pointer of three arguments");
  r.v = unary<float>(k, x.v); for (index_type i = 0; i < n; ++i) CHECK(r.v.get(i) == k(a[i]), "a function object keeps its state"); r.v = binary<float>(k, x.v, y.v); for (index_type i = 0; i < n; ++i) CHECK(r.v.get(i) == k(a[i], b[i]), "a function object of two arguments"); r.v = ternary<float>(k, x.v, y.v, w.v); for (index_type i = 0; i < n; ++i) CHECK(r.v.get(i) == k(a[i], b[i], c[i]), "a function object of three arguments");
  r.v = binary(subf(), x.v, y.v); for (index_type i = 0; i < n; ++i) CHECK(r.v.get(i) == a[i] - b[i] * b[i], "an adaptable function object of two arguments"); Vector<int> q(n); q = unary(trunc3, x.v); for (index_type i = 0; i < n; ++i) CHECK(q.get(i) == (a[i] > 3 ? 1 : 0), "the result type of the function is used"); Vector<double> d(n); d = double(2); d = binary(mix, x.v, d); for (index_type i = 0; i < n; ++i) CHECK(d.get(i) == 3 * a[i] + 2, "arguments of different types");
  r.v = unary(usq, x.v + y.v) - binary(usub, x.v, y.v); for (index_type i = 0; i < n; ++i) CHECK(r.v.get(i) == usq(a[i] + b[i]) - usub(a[i], b[i]), "user functions of and inside expressions"); x.v = binary(usub, y.v, x.v); for (index_type i = 0; i < n; ++i) CHECK(x.v.get(i) == usub(b[i], a[i]), "a user function in place"); x.outside("user functions write nothing else"); r.outside("user functions write nothing else"); }
template <typename A, typename B> void mat() { length_type m = len("m", 1, 3), n = len("n", 1, 2); long r_, c_; shape((int)pick("sh", 0, SHAPES - 1), r_, c_); std::vector<float> a = syv<float>("a", m * n), b = syv<float>("b", m * n); A x(m, n, r_, c_); B y(m, n, c_, r_), r(m, n, r_, c_); put2(x.v, a); put2(y.v, b); Matrix<float> w(m, n); w = x.v; Matrix<float> v(m, n); v = y.v;
  r.v = unary(usq, x.v); for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) CHECK(r.v.get(i, j) == usq(a[i * n + j]), "a function pointer is applied to every element of a matrix"); r.v = binary(usub, x.v, y.v); for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) CHECK(r.v.get(i, j) == usub(a[i * n + j], b[i * n + j]), "a function of two matrices pairs their elements"); r.v = ternary(fma3, x.v, y.v, w); for (index_type i = 0; i < m; ++i) for (index_type j = 0; j < n; ++j) CHECK(r.v.get(i, j) == fma3(a[i * n + j], b[i * n + j], a[i * n + j]), "a function of three matrices pairs their elements"); r.outside("user functions write nothing else"); }
// @entry c16_user params=0-3
ENTRY(c16_user) { vsipl init; switch (vsx_param()) { case 0: vec<sv<D1> >(); break; case 1: vec<cv<float> >(); break; case 2: mat<wm<MR>, wm<MC> >(); break; case 3: mat<wm<MC>, wm<MR> >(); break; } }
