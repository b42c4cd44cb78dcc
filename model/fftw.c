/* Contract model of the FFTW routines OpenVSIP calls (guru interface, new-array execution).  Built as bitcode for the executor
   only; replays use the installed FFTW.  Checked: a plan is executed on arrays that are in place exactly when the planned ones were,
   with the alignment of the planned ones unless FFTW_UNALIGNED; a complex-to-real transform without FFTW_PRESERVE_INPUT destroys its
   input, one of rank > 1 always does and refuses to be planned with it; planning without FFTW_ESTIMATE overwrites the arrays. */
#include "vsx.h"
#include "dftw.h"
#include <stdlib.h>
#include <string.h>
#define NEED(c, m) do { if (!(c)) vsx_assert(0, m); } while (0)
typedef struct { int n, is, os; } iod;
enum { C2C, R2C, C2R };
typedef struct { int rank, hr, kind, sign, ip, split; unsigned flags; iod d[3], h[2]; unsigned ai, ao; } plan;
#define MAXN 64
/* DFT along dims [0, m) of a compact array of shape n[0..rank) (row-major, last extent l) */
static void along(double *xr, double *xi, int const *n, int rank, int dim, int l, int sign) {
  int in = 1, out = 1, a, b, j, k; double tr[MAXN], ti[MAXN]; for (a = 0; a < dim; ++a) out *= n[a]; for (a = dim + 1; a < rank; ++a) in *= a == rank - 1 ? l : n[a];
  int N = dim == rank - 1 ? l : n[dim];
  for (a = 0; a < out; ++a) for (b = 0; b < in; ++b) {
    for (k = 0; k < N; ++k) { double sr = 0, si = 0; for (j = 0; j < N; ++j) { double wr, wi; int q = (a * N + j) * in + b; dft_w(N, (long)j * k, sign, &wr, &wi); sr += xr[q] * wr - xi[q] * wi; si += xr[q] * wi + xi[q] * wr; } tr[k] = sr; ti[k] = si; }
    for (k = 0; k < N; ++k) { xr[(a * N + k) * in + b] = tr[k]; xi[(a * N + k) * in + b] = ti[k]; } } }
/* access: real and imaginary part of an element, each in R units */
#define BODY(R, P) \
static void P##run1(plan const *p, R *ir, R *ii, R *or_, R *oi, int cs) { int r = p->rank, n[3], i, l, tot = 1, a, b, c; double xr[512], xi[512]; for (i = 0; i < r; ++i) n[i] = p->d[i].n; \
  iod D[3]; for (i = 0; i < 3; ++i) { int q = i - (3 - r); if (q < 0) { D[i].n = 1; D[i].is = D[i].os = 0; } else D[i] = p->d[q]; } \
  int N = D[2].n, H = N / 2 + 1, li = p->kind == C2R ? H : N, lo = p->kind == R2C ? H : N; int ics = p->kind == R2C ? 1 : cs, ocs = p->kind == C2R ? 1 : cs; l = p->kind == C2R ? H : N; tot = D[0].n * D[1].n * l; NEED(tot <= 512 && N <= MAXN, "model: transform size"); \
  for (a = 0; a < D[0].n; ++a) for (b = 0; b < D[1].n; ++b) for (c = 0; c < li; ++c) { long q = ((long)a * D[0].is + (long)b * D[1].is + (long)c * D[2].is) * ics; i = (a * D[1].n + b) * l + c; xr[i] = ir[q]; xi[i] = p->kind == R2C ? 0.0 : (double)ii[q]; } \
  int m[3]; m[0] = D[0].n; m[1] = D[1].n; m[2] = l; along(xr, xi, m, 3, 0, l, p->sign); along(xr, xi, m, 3, 1, l, p->sign); if (p->kind != C2R) along(xr, xi, m, 3, 2, l, p->sign); \
  if (p->kind == C2R && !(p->flags & 16)) for (a = 0; a < D[0].n; ++a) for (b = 0; b < D[1].n; ++b) for (c = 0; c < li; ++c) { long q = ((long)a * D[0].is + (long)b * D[1].is + (long)c * D[2].is) * ics; ir[q] = 7777; ii[q] = 8888; } \
  for (a = 0; a < D[0].n; ++a) for (b = 0; b < D[1].n; ++b) for (c = 0; c < lo; ++c) { long q = ((long)a * D[0].os + (long)b * D[1].os + (long)c * D[2].os) * ocs; i = (a * D[1].n + b) * l; \
    if (p->kind != C2R) { or_[q] = (R)xr[i + c]; oi[q] = (R)xi[i + c]; } \
    else { double s = xr[i]; int k; for (k = 1; k < H; ++k) { double wr, wi; dft_w(N, (long)k * c, p->sign, &wr, &wi); s += (2 * k == N ? 1 : 2) * (xr[i + k] * wr - xi[i + k] * wi); } or_[q] = (R)s; } } } \
static void P##run(plan const *p, R *ir, R *ii, R *or_, R *oi, int cs) { int a, b, na = p->hr > 0 ? p->h[0].n : 1, nb = p->hr > 1 ? p->h[1].n : 1; int ics = p->kind == R2C ? 1 : cs, ocs = p->kind == C2R ? 1 : cs; \
  NEED(p->ip == (ir == or_), "an FFTW plan is executed in place exactly when it was planned in place"); NEED((p->flags & 2) || (((unsigned long)ir & 15) == p->ai && ((unsigned long)or_ & 15) == p->ao), "an FFTW plan is executed on arrays aligned like the planned ones"); \
  for (a = 0; a < na; ++a) for (b = 0; b < nb; ++b) { long i = 0, o = 0; if (p->hr > 0) { i += (long)a * p->h[0].is; o += (long)a * p->h[0].os; } if (p->hr > 1) { i += (long)b * p->h[1].is; o += (long)b * p->h[1].os; } P##run1(p, ir + i * ics, ii ? ii + i * ics : 0, or_ + o * ocs, oi ? oi + o * ocs : 0, cs); } } \
static plan *P##mk(int rank, iod const *d, int hr, iod const *h, R *in, R *out, int kind, int sign, unsigned flags, int split) { int i; if (rank < 1 || rank > 3 || hr < 0 || hr > 2) return 0; for (i = 0; i < rank; ++i) if (d[i].n < 1) return 0; if (kind == C2R && rank > 1 && (flags & 16)) return 0; \
  plan *p = (plan *)malloc(sizeof(plan)); p->rank = rank; p->hr = hr; p->kind = kind; p->sign = sign; p->ip = in == out; p->split = split; p->flags = flags; for (i = 0; i < rank; ++i) p->d[i] = d[i]; for (i = 0; i < hr; ++i) p->h[i] = h[i]; p->ai = (unsigned long)in & 15; p->ao = (unsigned long)out & 15; \
  if (!(flags & 64)) { int cs = split ? 1 : 2, nl = d[rank - 1].n, k; for (i = 0; i < rank; ++i) for (k = 0; k < d[i].n; ++k) { int f = nl / 2 + 1; if (!(kind == C2R && i == rank - 1 && k >= f)) in[(long)k * d[i].is * (kind == R2C ? 1 : cs)] = 5555; if (!(kind == R2C && i == rank - 1 && k >= f)) out[(long)k * d[i].os * (kind == C2R ? 1 : cs)] = 6666; } } return p; } \
plan *P##plan_guru_dft(int rank, iod const *d, int hr, iod const *h, R *in, R *out, int sign, unsigned flags) { return P##mk(rank, d, hr, h, in, out, C2C, sign, flags, 0); } \
plan *P##plan_guru_split_dft(int rank, iod const *d, int hr, iod const *h, R *ri, R *ii, R *ro, R *io, unsigned flags) { return P##mk(rank, d, hr, h, ri, ro, C2C, -1, flags, 1); } \
plan *P##plan_guru_dft_r2c(int rank, iod const *d, int hr, iod const *h, R *in, R *out, unsigned flags) { return P##mk(rank, d, hr, h, in, out, R2C, -1, flags, 0); } \
plan *P##plan_guru_dft_c2r(int rank, iod const *d, int hr, iod const *h, R *in, R *out, unsigned flags) { return P##mk(rank, d, hr, h, in, out, C2R, 1, flags, 0); } \
plan *P##plan_guru_split_dft_r2c(int rank, iod const *d, int hr, iod const *h, R *in, R *ro, R *io, unsigned flags) { return P##mk(rank, d, hr, h, in, ro, R2C, -1, flags, 1); } \
plan *P##plan_guru_split_dft_c2r(int rank, iod const *d, int hr, iod const *h, R *ri, R *ii, R *out, unsigned flags) { return P##mk(rank, d, hr, h, ri, out, C2R, 1, flags, 1); } \
void P##execute_dft(plan *p, R *in, R *out) { NEED(p->kind == C2C && !p->split, "FFTW plan kind"); P##run(p, in, in + 1, out, out + 1, 2); } \
void P##execute_dft_r2c(plan *p, R *in, R *out) { NEED(p->kind == R2C && !p->split, "FFTW plan kind"); P##run(p, in, 0, out, out + 1, 2); } \
void P##execute_dft_c2r(plan *p, R *in, R *out) { NEED(p->kind == C2R && !p->split, "FFTW plan kind"); P##run(p, in, in + 1, out, 0, 2); } \
void P##execute_split_dft(plan *p, R *ri, R *ii, R *ro, R *io) { NEED(p->kind == C2C && p->split, "FFTW plan kind"); P##run(p, ri, ii, ro, io, 1); } \
void P##execute_split_dft_r2c(plan *p, R *in, R *ro, R *io) { NEED(p->kind == R2C && p->split, "FFTW plan kind"); P##run(p, in, 0, ro, io, 1); } \
void P##execute_split_dft_c2r(plan *p, R *ri, R *ii, R *out) { NEED(p->kind == C2R && p->split, "FFTW plan kind"); P##run(p, ri, ii, out, 0, 1); } \
void P##destroy_plan(plan *p) { free(p); } void P##cleanup(void) {}
BODY(float, fftwf_)
BODY(double, fftw_)
