#pragma once
#include "mv.h"
#include "dftw.h"
// oracle: the scaled transform, straight from its definition, over arrays of extent up to 3 dimensions (row-major, unused leading ones 1)
struct xt { long n[3]; xt(long a, long b, long c) { n[0] = a; n[1] = b; n[2] = c; } long size() const { return n[0] * n[1] * n[2]; } long at(long i, long j, long k) const { return (i * n[1] + j) * n[2] + k; } };
// X[k] = scale * sum_j x[j] prod_{d in mask} w_d^(sign j_d k_d); dimensions outside the mask are carried along (one transform per row or column)
inline void wgt(xt const &e, int mask, int sign, long const *j, long const *k, double &wr, double &wi) { wr = 1; wi = 0; for (int d = 0; d < 3; ++d) if (mask >> d & 1) { double a, b; dft_w((int)e.n[d], j[d] * k[d], sign, &a, &b); double t = wr * a - wi * b; wi = wr * b + wi * a; wr = t; } }
inline bool same_other(int mask, long const *j, long const *k) { for (int d = 0; d < 3; ++d) if (!(mask >> d & 1) && j[d] != k[d]) return false; return true; }
template <typename T> std::vector<complex<T> > dft(xt const &e, int mask, int sign, std::vector<complex<T> > const &x, double scale) { std::vector<complex<T> > r; long k[3], j[3];
  for (k[0] = 0; k[0] < e.n[0]; ++k[0]) for (k[1] = 0; k[1] < e.n[1]; ++k[1]) for (k[2] = 0; k[2] < e.n[2]; ++k[2]) { double sr = 0, si = 0;
    for (j[0] = 0; j[0] < e.n[0]; ++j[0]) for (j[1] = 0; j[1] < e.n[1]; ++j[1]) for (j[2] = 0; j[2] < e.n[2]; ++j[2]) if (same_other(mask, j, k)) { double wr, wi; wgt(e, mask, sign, j, k, wr, wi); complex<T> v = x[e.at(j[0], j[1], j[2])]; sr += v.real() * wr - v.imag() * wi; si += v.real() * wi + v.imag() * wr; }
    r.push_back(complex<T>(T(sr * scale), T(si * scale))); } return r; }
template <typename T> inline bool nr(T a, T b) { if (vsx_symbolic()) return a == b; double d = std::fabs((double)a - (double)b); return d <= 1e-3 * (1 + std::fabs((double)b)); }
template <typename T> inline bool nr(complex<T> a, complex<T> b) { return nr(a.real(), b.real()) & nr(a.imag(), b.imag()); }
// half-spectrum extent in dimension s
inline xt half(xt e, int s) { e.n[s] = e.n[s] / 2 + 1; return e; }
// real input as complex, and a half spectrum that is the transform of a real signal (given by its free values) extended to a full one
template <typename T> std::vector<complex<T> > cx(std::vector<T> const &x) { std::vector<complex<T> > r; for (size_t i = 0; i < x.size(); ++i) r.push_back(complex<T>(x[i], T())); return r; }
template <typename T> std::vector<complex<T> > cut(std::vector<complex<T> > const &x, xt const &e, int s) { xt h = half(e, s); std::vector<complex<T> > r; for (long i = 0; i < h.n[0]; ++i) for (long j = 0; j < h.n[1]; ++j) for (long k = 0; k < h.n[2]; ++k) r.push_back(x[e.at(i, j, k)]); return r; }
// a full array with the conjugate symmetry of the transform of real data along the masked dimensions
template <typename T> std::vector<complex<T> > herm(char const *n, xt const &e, int mask) { std::vector<complex<T> > r(e.size()); std::vector<char> done(e.size(), 0);
  for (long i = 0; i < e.n[0]; ++i) for (long j = 0; j < e.n[1]; ++j) for (long k = 0; k < e.n[2]; ++k) { long q = e.at(i, j, k); if (done[q]) continue; long p = e.at(mask & 1 ? (e.n[0] - i) % e.n[0] : i, mask & 2 ? (e.n[1] - j) % e.n[1] : j, mask & 4 ? (e.n[2] - k) % e.n[2] : k);
    if (p == q) r[q] = complex<T>(sy<T>::mk(n), T()); else { r[q] = sy<complex<T> >::mk(n); r[p] = conj(r[q]); } done[q] = done[p] = 1; } return r; }
template <typename T> std::vector<T> re(std::vector<complex<T> > const &x) { std::vector<T> r; for (size_t i = 0; i < x.size(); ++i) r.push_back(x[i].real()); return r; }
template <typename V, typename T> void near1(V v, std::vector<T> const &x, char const *m) { CHECK(v.size() == x.size(), m); for (index_type i = 0; i < v.size(); ++i) CHECK(nr((T)v.get(i), x[i]), m); }
template <typename V, typename T> void near2(V v, std::vector<T> const &x, char const *m) { CHECK(v.size() == x.size(), m); for (index_type i = 0; i < v.size(0); ++i) for (index_type j = 0; j < v.size(1); ++j) CHECK(nr((T)v.get(i, j), x[i * v.size(1) + j]), m); }
template <typename V, typename T> void near3(V v, std::vector<T> const &x, char const *m) { CHECK(v.size() == x.size(), m); for (index_type i = 0; i < v.size(0); ++i) for (index_type j = 0; j < v.size(1); ++j) for (index_type k = 0; k < v.size(2); ++k) CHECK(nr((T)v.get(i, j, k), x[(i * v.size(1) + j) * v.size(2) + k]), m); }
template <typename V, typename T> void put3(V v, std::vector<T> const &x) { for (index_type i = 0; i < v.size(0); ++i) for (index_type j = 0; j < v.size(1); ++j) for (index_type k = 0; k < v.size(2); ++k) v.put(i, j, k, x[(i * v.size(1) + j) * v.size(2) + k]); }
template <typename F, dimension_type D> void params(F const &f, Domain<D> const &in, Domain<D> const &out, bool fwd, double scale) { for (dimension_type d = 0; d < D; ++d) CHECK((f.input_size()[d].size() == in[d].size()) & (f.output_size()[d].size() == out[d].size()) & (f.input_size()[d].first() == 0) & (f.output_size()[d].stride() == 1), "FFT reports its sizes"); CHECK((f.forward() == fwd) & (f.scale() == scale), "FFT reports its direction and scale"); }
template <return_mechanism_type R> struct go { template <typename F, typename I, typename O> static void run(F &f, I in, O out) { out = f(in); } template <typename F, typename V> static void ip(F &, V) {} };
template <> struct go<by_reference> { template <typename F, typename I, typename O> static void run(F &f, I in, O out) { f(in, out); } template <typename F, typename V> static void ip(F &f, V v) { f(v); } };
