// @property C17
// @bounds every 32-bit seed; sequences up to 12 uniform or 2 normal numbers, 1 to 4 generators, views up to 4 elements or 2 by 3
#include "mv.h"
#include <vsip/random.hpp>
typedef unsigned int u32;
// the documented generators: a linear congruential one, and (portable) the difference of two
struct lcg { u32 x; u32 next() { x = 1664525u * x + 1013904223u; return x; } };
struct port { u32 x, y, z, c; u32 next() { x = x * 1664525u + 1013904223u; y = y * 69069u + c; u32 r = x - y; if (y == z) { ++y; ++z; } return r; } };
template <typename T> T uni(u32 r) { return T(r / 4294967296.0); }
static index_type seed() { return (index_type)vsx_int("seed", 0, 4294967295L); }
static u32 const primes[] = {3, 5, 7, 11};
// @entry c17_seq params=0-3
template <typename T> void seqs(bool p) { index_type s = seed(); Rand<T> r(s, p); lcg l = {(u32)s}; port q = {(u32)s, 1, 1, 3}; if (!p) l.next(); for (int i = 0; i < 6; ++i) { T v = r.randu(); T e = uni<T>(p ? q.next() : l.next()); CHECK(v == e, "uniform numbers follow the documented generator"); if (sizeof(T) == 8) CHECK((v >= 0) & (v < 1), "uniform numbers lie between 0 and 1"); } }
ENTRY(c17_seq) { vsipl init; switch (vsx_param()) { case 0: seqs<double>(true); break; case 1: seqs<double>(false); break; case 2: seqs<float>(true); break; case 3: seqs<float>(false); break; } }
// several generators of one seed: generator id of k runs through every k-th number of the one sequence (non-portable), or starts far into it with its own increment (portable)
// @entry c17_multi params=0-1
ENTRY(c17_multi) { vsipl init; index_type s = seed(); u32 k = (u32)pick("k", 1, 7), id = (u32)pick("id", 1, 7); vsx_assume(id <= k); if (vsx_param() == 0) { Rand<double> r(s, k, id, false); lcg l = {(u32)s}; for (u32 i = 0; i < id; ++i) l.next(); for (int j = 0; j < 3; ++j) { for (u32 i = 1; i < k; ++i) l.next(); CHECK(r.randu() == uni<double>(l.next()), "generator id of k takes every k-th number of the sequence"); } }
  else { vsx_assume(k <= 4); Rand<double> r(s, k, id); u32 skip = (4294967295u / k) * (id - 1); u32 a = 1664525u, c = 1013904223u, A = 1, C = 0; for (u32 m = skip; m; m >>= 1) { if (m & 1) { C = a * C + c; A = a * A; } c = (a + 1) * c; a = a * a; } port q = {A * (u32)s + C, 1, 1, primes[id - 1]}; for (int j = 0; j < 4; ++j) CHECK(r.randu() == uni<double>(q.next()), "generator id of k starts its own share of the sequence"); } }
template <typename T> T nrm(bool p, lcg &l, port &q) { T s = T(); for (int i = 0; i < 12; ++i) s += uni<T>(p ? q.next() : l.next()); return p ? T(6) - s : s - T(6); }
template <typename T> complex<T> cnrm(bool p, lcg &l, port &q) { T a = T(), b = T(); for (int i = 0; i < 3; ++i) a += uni<T>(p ? q.next() : l.next()); for (int i = 0; i < 3; ++i) b += uni<T>(p ? q.next() : l.next()); return complex<T>(3 - b - a, a - b); }
// @entry c17_norm params=0-7
template <typename T> void norms(bool p) { index_type s = seed(); Rand<T> r(s, p); lcg l = {(u32)s}; port q = {(u32)s, 1, 1, 3}; if (!p) l.next(); for (int i = 0; i < 2; ++i) { T v = r.randn(); CHECK(v == nrm<T>(p, l, q), "normal numbers are the documented sums of uniform ones"); } CHECK(r.randu() == uni<T>(p ? q.next() : l.next()), "uniform and normal numbers share one sequence"); }
template <typename T> void cnorms(bool p) { index_type s = seed(); Rand<complex<T> > r(s, p); lcg l = {(u32)s}; port q = {(u32)s, 1, 1, 3}; if (!p) l.next(); for (int i = 0; i < 2; ++i) { complex<T> v = r.randn(), e = cnrm<T>(p, l, q); CHECK(v == e, "complex normal numbers are the documented sums of uniform ones"); complex<T> u = r.randu(); T re = uni<T>(p ? q.next() : l.next()), im = uni<T>(p ? q.next() : l.next()); CHECK(u == complex<T>(re, im), "complex uniform numbers take their parts in order"); } }
ENTRY(c17_norm) { vsipl init; switch (vsx_param()) { case 0: norms<double>(true); break; case 1: norms<double>(false); break; case 2: norms<float>(true); break; case 3: norms<float>(false); break; case 4: cnorms<double>(true); break; case 5: cnorms<double>(false); break; case 6: cnorms<float>(true); break; case 7: cnorms<float>(false); break; } }
// views of random numbers: one number per element, in the order of the destination, a new run for every use
// @entry c17_view params=0-6
template <typename T, typename R> struct gen { Rand<T> r; port q; gen(index_type s) : r(s) { port p = {(u32)s, 1, 1, 3}; q = p; } R u() { return uni<R>(q.next()); } };
template <typename O> void views(bool colmajor) { index_type s = seed(); gen<double, double> g(s); length_type m = len("m", 1, 2), n = len("n", 1, 3); Matrix<double, Dense<2, double, O> > a(m, n); a = g.r.randu(m, n); for (index_type i = 0; i < m * n; ++i) { double e = g.u(); CHECK((colmajor ? a.get(i % m, i / m) : a.get(i / n, i % n)) == e, "a matrix of random numbers takes one number per element in its own order"); } auto v = g.r.randu(m, n); CHECK((v.size(0) == m) & (v.size(1) == n), "a view of random numbers has the requested extents"); a = v; for (index_type i = 0; i < m * n; ++i) { double e = g.u(); CHECK((colmajor ? a.get(i % m, i / m) : a.get(i / n, i % n)) == e, "a second matrix continues the sequence"); } CHECK(g.r.randu() == g.u(), "no number is drawn twice or dropped"); }
ENTRY(c17_view) { vsipl init; switch (vsx_param()) { case 0: views<row2_type>(false); break; case 1: views<col2_type>(true); break;
  case 2: { gen<double, double> g(seed()); length_type n = len("n", 1, 4); long st = pick("st", -2, 2); vsx_assume(st != 0); sv<DD1> x(n, st); x.v = g.r.randu(n); for (index_type i = 0; i < n; ++i) CHECK(x.v.get(i) == g.u(), "a vector of random numbers takes them in order"); x.v = g.r.randu(n) + x.v; CHECK(g.r.randu(n).size() == n, "a view of random numbers has the requested extent"); for (index_type i = 0; i < n; ++i) g.u(); CHECK(g.r.randu() == g.u(), "no number is drawn twice or dropped"); x.outside("random views write nothing else"); break; }
  case 3: { gen<float, float> g(seed()); Tensor<float> t(2, 1, 2); t = g.r.randu(2, 1, 2); for (int i = 0; i < 4; ++i) { float e = g.u(); CHECK(t.get(i / 2, 0, i % 2) == e, "a tensor of random numbers takes them in order"); } break; }
  case 4: { index_type s = seed(); Rand<double> a(s), b(s), c(s, false), d(s, false); Vector<double> x(3), y(3); x = a.randn(3); y = b.randn(3); for (int i = 0; i < 3; ++i) CHECK(x.get(i) == y.get(i), "equal seeds give equal sequences"); x = c.randu(3); for (int i = 0; i < 3; ++i) CHECK(x.get(i) == d.randu(), "equal seeds give equal sequences, element by element or as a view"); break; }
  case 5: { index_type s = seed(); Rand<complex<double> > a(s); Vector<complex<double> > x(2); x = a.randu(2); port q = {(u32)s, 1, 1, 3}; for (int i = 0; i < 2; ++i) { double re = uni<double>(q.next()), im = uni<double>(q.next()); CHECK(x.get(i) == complex<double>(re, im), "a vector of complex random numbers takes them in order"); } break; }
  case 6: { index_type s = seed(); Rand<double> a(s); port q = {(u32)s, 1, 1, 3}; lcg l = {0}; Matrix<double> x(1, 2); x = a.randn(1, 2); for (int i = 0; i < 2; ++i) CHECK(x.get(0, i) == nrm<double>(true, l, q), "a matrix of normal numbers takes them in order"); Tensor<double> t(1, 1, 2); t = a.randn(1, 1, 2); for (int i = 0; i < 2; ++i) CHECK(t.get(0, 0, i) == nrm<double>(true, l, q), "a tensor of normal numbers takes them in order"); break; } } }
