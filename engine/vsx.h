// Interface between harnesses and the symbolic executor (and the native replay driver).
#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
int64_t vsx_int(char const *name, int64_t lo, int64_t hi);      // symbolic integer in [lo,hi]
double  vsx_f64(char const *name, int64_t lo, int64_t hi);      // symbolic integer-valued double in [lo,hi]
float   vsx_f32(char const *name, int64_t lo, int64_t hi);      // symbolic integer-valued float in [lo,hi]
double  vsx_u64(char const *name);                              // symbolic double, arbitrary (uninterpreted) non-NaN value
float   vsx_u32(char const *name);
void    vsx_assume(int c);
void    vsx_assert(int c, char const *msg);
void    vsx_cover(char const *what);                            // reachability witness
int64_t vsx_pick(int64_t v);                                    // fork: one path per feasible value
double  vsx_uf(char const *f, double const *args, int n);       // uninterpreted real function
void    vsx_obs(double v);                                      // observation, compared in trace validation
void    vsx_leak_mark(void);                                    // start counting heap blocks
int     vsx_leaks(void);                                        // heap blocks allocated since the mark and not freed
int     vsx_writable(void const *p, uint64_t n);                // is [p,p+n) inside one live object
int     vsx_param(void);                                        // concrete instance number of the run
int     vsx_symbolic(void);                                     // 1 under the executor, 0 natively
int     vsx_spawn(void (*f)(void *), void *arg);                // new cooperative thread (own thread-local storage)
void    vsx_yield(void);                                        // run the next live thread
int     vsx_self(void);                                         // number of the running thread
void    vsx_join(void);                                         // run until all other threads are finished
void    vsx_expect_abort(void);                                 // from here on an abort/assert ends the path quietly
#ifdef __cplusplus
}
#endif
