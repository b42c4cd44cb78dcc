#pragma once
#include "sub.h"
#include <vsip/selgen.hpp>
typedef complex<float> cf;
typedef Strided<1, cf, Layout<1, row1_type, dense, split_complex> > SP1;
// independent scalar arithmetic
template <typename T> T mul_(T a, T b) { return a * b; }
inline cf mul_(cf a, cf b) { return cf(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
// ---- expressions: (id, view expression, scalar meaning)
#define XPR(n, E, R) struct n { template <typename O, typename A, typename B, typename C, typename S> static void run(O o, A a, B b, C c, S s) { o = E; } template <typename T> static T ref(T a, T b, T c, T s) { return R; } };
XPR(Xadd, a + b, a + b) XPR(Xsub, a - b, a - b) XPR(Xmul, a * b, mul_(a, b)) XPR(Xneg, -a, -a) XPR(Xplus, +a, a)
XPR(Xas, a + s, a + s) XPR(Xsa, s + a, s + a) XPR(Xsm, s - a, s - a) XPR(Xms, a - s, a - s) XPR(Xsx, s * a, mul_(s, a)) XPR(Xxs, a * s, mul_(a, s))
XPR(Xma, a * b + c, mul_(a, b) + c) XPR(Xam, c + a * b, mul_(a, b) + c) XPR(Xmm, a * b + b * c, mul_(a, b) + mul_(b, c)) XPR(Xmsma, s * a + b, mul_(s, a) + b) XPR(Xmas, a * b + s, mul_(a, b) + s) XPR(Xsmas, s * a + s, mul_(s, a) + s) XPR(Xpsm, b + s * a, mul_(s, a) + b)
XPR(Xmsub, a * b - c, mul_(a, b) - c) XPR(Xsubm, a - b * c, a - mul_(b, c)) XPR(Xdeep, (a + b) - (-c + s) * (b - a), (a + b) - mul_(-c + s, b - a))
XPR(Fma, ma(a, b, c), mul_(a, b) + c) XPR(Fmas, ma(a, s, c), mul_(a, s) + c) XPR(Fam, am(a, b, c), mul_(a + b, c)) XPR(Fmsb, msb(a, b, c), mul_(a, b) - c) XPR(Fsbm, sbm(a, b, c), mul_(a - b, c)) XPR(Fexpo, expoavg(a, b, c), mul_(a, b) + mul_(T(1) - a, c))
XPR(Fmass, ma(a, b, s), mul_(a, b) + s) XPR(Fams, am(a, s, b), mul_(a + s, b)) XPR(Fsma, ma(s, a, b), mul_(s, a) + b) XPR(Fexpos, expoavg(s, b, c), mul_(s, b) + mul_(T(1) - s, c)) XPR(Fmsss, ma(s, a, s), mul_(s, a) + s) XPR(Fassm, sbm(a, s, s), mul_(a - s, s))
XPR(Fadd, add(a, b), a + b) XPR(Fsub, sub(a, b), a - b) XPR(Fmul, mul(a, b), mul_(a, b)) XPR(Fneg, neg(a), -a) XPR(Fsq, sq(a), mul_(a, a))
XPR(Fmax, max(a, b), a > b ? a : b) XPR(Fmin, min(a, b), a < b ? a : b) XPR(Fite, ite(a < b, a, c), a < b ? a : c) XPR(Fites, ite(a >= s, b, c), a >= s ? b : c) XPR(Fieq, ite(a == b, b, s), a == b ? b : s) XPR(Fine, ite(a != b, a, b), a != b ? a : b) XPR(Fle, ite(a <= b, a, b), a <= b ? a : b) XPR(Fgt, ite(a > c, a, b), a > c ? a : b)
XPR(Fmag, mag(a), a < T(0) ? -a : a) XPR(Fmagsq, magsq(a), a * a) XPR(Fmaxmg, maxmg(a, b), (a < T(0) ? -a : a) > (b < T(0) ? -b : b) ? (a < T(0) ? -a : a) : (b < T(0) ? -b : b)) XPR(Fminmgsq, minmgsq(a, b), a * a < b * b ? a * a : b * b) XPR(Fmaxmgsq, maxmgsq(a, b), a * a > b * b ? a * a : b * b) XPR(Fminmg, minmg(a, b), (a < T(0) ? -a : a) < (b < T(0) ? -b : b) ? (a < T(0) ? -a : a) : (b < T(0) ? -b : b))
struct Xpe { template <typename O, typename A, typename B, typename C, typename S> static void run(O o, A a, B b, C, S s) { o = a; o += b; o -= s; o *= b; o += s; o -= a; } template <typename T> static T ref(T a, T b, T, T s) { return mul_(a + b - s, b) + s - a; } };
struct Xpself { template <typename O, typename A, typename B, typename C, typename S> static void run(O o, A a, B b, C, S s) { o = b; o = o * a + o; o *= s; } template <typename T> static T ref(T a, T b, T, T s) { return mul_(mul_(b, a) + b, s); } };
XPR(Xscalar, s, s)
// integer only
XPR(Iand, a & b, a & b) XPR(Ior, a | b, a | b) XPR(Ixor, a ^ b, a ^ b) XPR(Inot, bnot(a), ~a) XPR(Fband, band(a, b), a & b) XPR(Fbor, bor(a, s), a | s) XPR(Fbxor, bxor(a, b), a ^ b)
struct Iop { template <typename O, typename A, typename B, typename C, typename S> static void run(O o, A a, B b, C c, S s) { o = a; o &= b; o |= c; o ^= s; o ^= b; o &= s; o |= s; } template <typename T> static T ref(T a, T b, T c, T s) { return (((((a & b) | c) ^ s ^ b) & s) | s); } };
// ---- runners
template <typename X, typename T, typename O, typename A, typename B, typename C> void go1(O o, A a, B b, C c) {
  length_type n = o.size(); std::vector<T> x(n), y(n), z(n);
  for (index_type i = 0; i < n; ++i) { x[i] = sy<T>::mk("x"); y[i] = sy<T>::mk("y"); z[i] = sy<T>::mk("z"); a.put(i, x[i]); b.put(i, y[i]); c.put(i, z[i]); }
  T s = sy<T>::mk("s"); X::run(o, a, b, c, s);
  for (index_type i = 0; i < n; ++i) { CHECK(o.get(i) == X::ref(x[i], y[i], z[i], s), "each element of an element-wise expression is the scalar expression of the operands' elements"); CHECK((a.get(i) == x[i]) & (b.get(i) == y[i]) & (c.get(i) == z[i]), "operands of an expression are left unchanged"); }
}
// layouts: dense, every-other-element subviews (also reversed), rows and columns of matrices
#define LAY(k) template <typename X, typename T> void lay_(std::integral_constant<int, k>) { length_type n = len("n", 1, 3); Vector<T> d(n), e(n), f(n), g(n); Vector<T> w(6), u(6); Matrix<T> m(3, 4), m2(4, 3), m3(3, 3);
LAY(0) go1<X, T>(d, e, f, g); }
LAY(1) go1<X, T>(w(Domain<1>(0, 2, n)), e, u(Domain<1>(5, -2, n)), g); }
LAY(2) go1<X, T>(m.row(1)(Domain<1>(1, 1, n)), m2.col(2)(Domain<1>(0, 1, n)), f, w(Domain<1>(1, 1, n))); }
LAY(3) go1<X, T>(m2.diag(0)(Domain<1>(n)), m.row(2)(Domain<1>(n)), m3.transpose().row(1)(Domain<1>(n)), m3.col(2)(Domain<1>(n - 1, -1, n))); }
template <typename X, typename T, int K> void lay() { lay_<X, T>(std::integral_constant<int, K % 4>()); }
template <typename T, int OFF> void arith1(int p) { 
  switch (p) {
  case 0: lay<Xadd, T, OFF + 0>(); break; case 1: lay<Xsub, T, OFF + 1>(); break; case 2: lay<Xmul, T, OFF + 2>(); break; case 3: lay<Xneg, T, OFF + 3>(); break; case 4: lay<Xas, T, OFF + 4>(); break; case 5: lay<Xsa, T, OFF + 5>(); break; case 6: lay<Xsm, T, OFF + 6>(); break; case 7: lay<Xms, T, OFF + 7>(); break;
  case 8: lay<Xsx, T, OFF + 8>(); break; case 9: lay<Xxs, T, OFF + 9>(); break; case 10: lay<Xma, T, OFF + 10>(); break; case 11: lay<Xam, T, OFF + 11>(); break; case 12: lay<Xmm, T, OFF + 12>(); break; case 13: lay<Xmsma, T, OFF + 13>(); break; case 14: lay<Xmas, T, OFF + 14>(); break; case 15: lay<Xsmas, T, OFF + 15>(); break; case 16: lay<Xpsm, T, OFF + 16>(); break;
  case 17: lay<Xmsub, T, OFF + 17>(); break; case 18: lay<Xsubm, T, OFF + 18>(); break; case 19: lay<Xdeep, T, OFF + 19>(); break; case 20: lay<Xpe, T, OFF + 20>(); break; case 21: lay<Xpself, T, OFF + 21>(); break; case 22: lay<Xscalar, T, OFF + 22>(); break; case 23: lay<Xplus, T, OFF + 23>(); break; } }
template <typename T, int OFF> void func1(int p) { 
  switch (p) {
  case 0: lay<Fma, T, OFF + 0>(); break; case 1: lay<Fmas, T, OFF + 1>(); break; case 2: lay<Fam, T, OFF + 2>(); break; case 3: lay<Fmsb, T, OFF + 3>(); break; case 4: lay<Fsbm, T, OFF + 4>(); break; case 5: lay<Fexpo, T, OFF + 5>(); break; case 6: lay<Fadd, T, OFF + 6>(); break; case 7: lay<Fsub, T, OFF + 7>(); break; case 8: lay<Fmul, T, OFF + 8>(); break; case 9: lay<Fneg, T, OFF + 9>(); break; case 10: lay<Fsq, T, OFF + 10>(); break;
  case 11: lay<Fmass, T, OFF + 11>(); break; case 12: lay<Fams, T, OFF + 12>(); break; case 13: lay<Fsma, T, OFF + 13>(); break; case 14: lay<Fexpos, T, OFF + 14>(); break; case 15: lay<Fmsss, T, OFF + 15>(); break; case 16: lay<Fassm, T, OFF + 16>(); break; } }
template <typename T, int OFF> void order1(int p) { 
  switch (p) {
  case 0: lay<Fmax, T, OFF + 0>(); break; case 1: lay<Fmin, T, OFF + 1>(); break; case 2: lay<Fite, T, OFF + 2>(); break; case 3: lay<Fites, T, OFF + 3>(); break; case 4: lay<Fieq, T, OFF + 4>(); break; case 5: lay<Fine, T, OFF + 5>(); break; case 6: lay<Fle, T, OFF + 6>(); break; case 7: lay<Fgt, T, OFF + 7>(); break; case 8: lay<Fmag, T, OFF + 8>(); break; case 9: lay<Fmagsq, T, OFF + 9>(); break; case 10: lay<Fmaxmg, T, OFF + 10>(); break; case 11: lay<Fminmgsq, T, OFF + 11>(); break; case 12: lay<Fmaxmgsq, T, OFF + 12>(); break; case 13: lay<Fminmg, T, OFF + 13>(); break; } }