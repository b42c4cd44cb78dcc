/* weights of the transform: exact for lengths 1, 2 and 4; for any other length an executor run uses integers with the
   symmetries of the roots of unity (w[0] = 1, w[n-e] = conj w[e], w[n/2] = -1) instead of rounded irrational numbers, so that all
   arithmetic stays exact; a replay uses the real roots with the real library. */
#pragma once
#include "vsx.h"
#ifdef __cplusplus
#include <cmath>
#else
double cos(double); double sin(double);
#endif
static inline void dft_w(int n, long e, int sign, double *re, double *im) {
  int k = (int)(e % n);
  if (!vsx_symbolic()) { double a = 6.283185307179586476925286766559 * k / n; *re = cos(a); *im = sign * sin(a); return; }
  if (k == 0) { *re = 1; *im = 0; } else if (2 * k == n) { *re = -1; *im = 0; }
  else if (n == 4) { *re = 0; *im = k == 1 ? sign : -sign; }
  else { int q = 2 * k < n ? k : n - k; *re = q + 1; *im = (2 * k < n ? 1 : -1) * sign * (3 * q - 1); } }
