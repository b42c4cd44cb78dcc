/* Contract model of the BLAS routines OpenVSIP calls, after the reference semantics: a negative increment starts
   at the far end, beta == 0 means the result is not read, leading dimensions and increments are checked (the
   reference library stops the program on a bad one).  Built as bitcode for the executor only; replays use the installed BLAS. */
#include "vsx.h"
#define NEED(c, m) do { if (!(c)) vsx_assert(0, m); } while (0) /* unobserved when it holds: replays run the installed BLAS */
typedef struct { float r, i; } cf; typedef struct { double r, i; } cd;
static int up(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int mx(int a, int b) { return a > b ? a : b; }
static float s_mul(float a, float b) { return a * b; } static float s_add(float a, float b) { return a + b; } static float s_cj(float a) { return a; } static float s_zero(void) { return 0; } static int s_is0(float a) { return a == 0; } static int s_is1(float a) { return a == 1; }
static double d_mul(double a, double b) { return a * b; } static double d_add(double a, double b) { return a + b; } static double d_cj(double a) { return a; } static double d_zero(void) { return 0; } static int d_is0(double a) { return a == 0; } static int d_is1(double a) { return a == 1; }
#define CX(p, T) static T p##_mul(T a, T b) { T r; r.r = a.r * b.r - a.i * b.i; r.i = a.r * b.i + a.i * b.r; return r; } static T p##_add(T a, T b) { T r; r.r = a.r + b.r; r.i = a.i + b.i; return r; } static T p##_cj(T a) { a.i = -a.i; return a; } static T p##_zero(void) { T r; r.r = 0; r.i = 0; return r; } static int p##_is0(T a) { return (a.r == 0) & (a.i == 0); } static int p##_is1(T a) { return (a.r == 1) & (a.i == 0); }
CX(c, cf) CX(z, cd)
static float s_div(float a, float b) { return a / b; } static double d_div(double a, double b) { return a / b; }
static cf c_div(cf a, cf b) { float d = b.r * b.r + b.i * b.i; cf r; r.r = (a.r * b.r + a.i * b.i) / d; r.i = (a.i * b.r - a.r * b.i) / d; return r; }
static cd z_div(cd a, cd b) { double d = b.r * b.r + b.i * b.i; cd r; r.r = (a.r * b.r + a.i * b.i) / d; r.i = (a.i * b.r - a.r * b.i) / d; return r; }
static float s_neg(float a) { return -a; } static double d_neg(double a) { return -a; } static cf c_neg(cf a) { a.r = -a.r; a.i = -a.i; return a; } static cd z_neg(cd a) { a.r = -a.r; a.i = -a.i; return a; }
#define AT0(n, inc) ((long)((inc) < 0 ? (long)((n) - 1) * -(long)(inc) : 0))
#define DOT(p, T, NAME, CJ) static T NAME##_i(int *n, T *x, int *ix, T *y, int *iy) { T s = p##_zero(); long a = AT0(*n, *ix), b = AT0(*n, *iy); int i; for (i = 0; i < *n; ++i, a += *ix, b += *iy) s = p##_add(s, p##_mul(CJ ? p##_cj(x[a]) : x[a], y[b])); return s; }
DOT(s, float, sdot, 0) DOT(d, double, ddot, 0) DOT(c, cf, cdotu, 0) DOT(c, cf, cdotc, 1) DOT(z, cd, zdotu, 0) DOT(z, cd, zdotc, 1)
float sdot_(int *n, float *x, int *ix, float *y, int *iy) { return sdot_i(n, x, ix, y, iy); }
double ddot_(int *n, double *x, int *ix, double *y, int *iy) { return ddot_i(n, x, ix, y, iy); }
#define CD(N, T, F) F _Complex N##_(int *n, T *x, int *ix, T *y, int *iy) { T s = N##_i(n, x, ix, y, iy); F _Complex r; __real__ r = s.r; __imag__ r = s.i; return r; }
CD(cdotu, cf, float) CD(cdotc, cf, float) CD(zdotu, cd, double) CD(zdotc, cd, double)
#define OKT(t) (up(t) == 'N' || up(t) == 'T' || up(t) == 'C')
#define GEMV(p, T, NAME) void NAME(char *tr, int *m, int *n, T *al, T *a, int *lda, T *x, int *ix, T *be, T *y, int *iy) { int t = up(*tr) != 'N', cj = up(*tr) == 'C', i, j, nx = t ? *m : *n, ny = t ? *n : *m; \
  NEED(OKT(*tr) && *m >= 0 && *n >= 0 && *lda >= mx(1, *m) && *ix != 0 && *iy != 0, "BLAS gemv arguments are valid"); if (!*m || !*n) return; \
  for (i = 0; i < ny; ++i) { T s = p##_zero(); for (j = 0; j < nx; ++j) { T e = t ? a[(long)i * *lda + j] : a[(long)j * *lda + i]; s = p##_add(s, p##_mul(cj ? p##_cj(e) : e, x[AT0(nx, *ix) + (long)j * *ix])); } \
    T *o = y + AT0(ny, *iy) + (long)i * *iy; s = p##_mul(*al, s); *o = p##_is0(*be) ? s : p##_add(s, p##_mul(*be, *o)); } }
GEMV(s, float, sgemv_) GEMV(d, double, dgemv_) GEMV(c, cf, cgemv_) GEMV(z, cd, zgemv_)
#define GEMM(p, T, NAME) void NAME(char *ta, char *tb, int *m, int *n, int *k, T *al, T *a, int *lda, T *b, int *ldb, T *be, T *c, int *ldc) { int A = up(*ta), B = up(*tb), i, j, l; \
  NEED(OKT(*ta) && OKT(*tb) && *m >= 0 && *n >= 0 && *k >= 0 && *lda >= mx(1, A == 'N' ? *m : *k) && *ldb >= mx(1, B == 'N' ? *k : *n) && *ldc >= mx(1, *m), "BLAS gemm arguments are valid"); \
  for (j = 0; j < *n; ++j) for (i = 0; i < *m; ++i) { T s = p##_zero(); for (l = 0; l < *k; ++l) { T x = A == 'N' ? a[(long)l * *lda + i] : a[(long)i * *lda + l], y = B == 'N' ? b[(long)j * *ldb + l] : b[(long)l * *ldb + j]; if (A == 'C') x = p##_cj(x); if (B == 'C') y = p##_cj(y); s = p##_add(s, p##_mul(x, y)); } \
    T *o = c + (long)j * *ldc + i; s = p##_mul(*al, s); *o = p##_is0(*be) ? s : p##_add(s, p##_mul(*be, *o)); } }
GEMM(s, float, sgemm_) GEMM(d, double, dgemm_) GEMM(c, cf, cgemm_) GEMM(z, cd, zgemm_)
#define GER(p, T, NAME, CJ) void NAME(int *m, int *n, T *al, T *x, int *ix, T *y, int *iy, T *a, int *lda) { int i, j; NEED(*m >= 0 && *n >= 0 && *ix != 0 && *iy != 0 && *lda >= mx(1, *m), "BLAS ger arguments are valid"); \
  for (j = 0; j < *n; ++j) for (i = 0; i < *m; ++i) { T v = y[AT0(*n, *iy) + (long)j * *iy]; a[(long)j * *lda + i] = p##_add(a[(long)j * *lda + i], p##_mul(*al, p##_mul(x[AT0(*m, *ix) + (long)i * *ix], CJ ? p##_cj(v) : v))); } }
GER(s, float, sger_, 0) GER(d, double, dger_, 0) GER(c, cf, cgerc_, 1) GER(z, cd, zgerc_, 1) GER(c, cf, cgeru_, 0) GER(z, cd, zgeru_, 0)
/* op(A) X = alpha B or X op(A) = alpha B by substitution */
#define TRSM(p, T, NAME) void NAME(char *sd, char *ul, char *tr, char *dg, int *m, int *n, T *al, T *a, int *lda, T *b, int *ldb) { int L = up(*sd) == 'L', U = up(*ul) == 'U', t = up(*tr) != 'N', cj = up(*tr) == 'C', unit = up(*dg) == 'U', na = L ? *m : *n, q, i, j, k; \
  NEED((L || up(*sd) == 'R') && (U || up(*ul) == 'L') && OKT(*tr) && (unit || up(*dg) == 'N') && *m >= 0 && *n >= 0 && *lda >= mx(1, na) && *ldb >= mx(1, *m), "BLAS trsm arguments are valid"); \
  int eu = U ^ t; /* op(A) is upper */ \
  for (q = 0; q < (L ? *n : *m); ++q) for (k = 0; k < na; ++k) { i = (L ? eu : !eu) ? na - 1 - k : k; \
      T *o = L ? b + (long)q * *ldb + i : b + (long)i * *ldb + q; T s = p##_mul(*al, *o); \
      for (j = 0; j < na; ++j) { int solved = (L ? eu : !eu) ? j > i : j < i; if (!solved) continue; int r_ = L ? i : j, c_ = L ? j : i; T e = t ? a[(long)r_ * *lda + c_] : a[(long)c_ * *lda + r_]; if (cj) e = p##_cj(e); T x = L ? b[(long)q * *ldb + j] : b[(long)j * *ldb + q]; s = p##_add(s, p##_neg(p##_mul(e, x))); } \
      if (!unit) { T e = a[(long)i * *lda + i]; if (cj) e = p##_cj(e); s = p##_div(s, e); } *o = s; } }
TRSM(s, float, strsm_) TRSM(d, double, dtrsm_) TRSM(c, cf, ctrsm_) TRSM(z, cd, ztrsm_)
