// Native implementation of the harness interface: replays a model found by the solver (or a random
// valuation for trace validation) against the real code.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include <exception>
#include <pthread.h>
#include <dlfcn.h>
#include <unistd.h>
#include "vsx.h"
static std::map<std::string, long> &vals() { static std::map<std::string, long> v; return v; }
static std::map<std::string, int> &cnt() { static std::map<std::string, int> v; return v; }
static FILE *obsf; static int failed; static bool expectAbort; static bool loaded;
static void load() {
  if (loaded) return; loaded = true;
  if (char const *f = getenv("VSX_VALUES")) if (FILE *p = fopen(f, "r")) { char k[512]; long v; while (fscanf(p, "%500s %ld", k, &v) == 2) vals()[k] = v; fclose(p); }
  if (char const *f = getenv("VSX_OBS")) obsf = fopen(f, "w");
}
static long val(char const *n, long lo, long hi) { load(); int k = cnt()[n]++; std::string s = n; if (k) s += "#" + std::to_string(k); auto i = vals().find(s); if (i != vals().end()) return i->second; return lo > 0 ? lo : hi < 0 ? hi : 0; }
static void fin() { if (obsf) { fflush(obsf); } }
extern "C" {
int64_t vsx_int(char const *n, int64_t lo, int64_t hi) { return val(n, lo, hi); }
double vsx_f64(char const *n, int64_t lo, int64_t hi) { return (double)val(n, lo, hi); }
float vsx_f32(char const *n, int64_t lo, int64_t hi) { return (float)val(n, lo, hi); }
void vsx_assume(int c) { if (!c) { fin(); fprintf(stderr, "VSX-ASSUME-FALSE\n"); _exit(failed ? 77 : 66); } }
void vsx_assert(int c, char const *m) { load(); if (obsf) fprintf(obsf, "%d\n", c ? 1 : 0); if (!c) { failed = 1; fprintf(stderr, "VSX-ASSERT-FAIL %s\n", m); } }
void vsx_cover(char const *) {}
int64_t vsx_pick(int64_t v) { return v; }
double vsx_uf(char const *f, double const *a, int n) { unsigned long h = 1469598103934665603ul; for (; *f; ++f) h = (h ^ *f) * 1099511628211ul; for (int i = 0; i < n; ++i) { double v = a[i] == 0 ? 0.0 : a[i]; unsigned long b; memcpy(&b, &v, 8); h = (h ^ b) * 0x9E3779B97F4A7C15ul; h ^= h >> 29; } return (double)(long)(h % 2001) - 1000; }
void vsx_obs(double v) { load(); if (obsf) { if (std::isnan(v)) fprintf(obsf, "nan\n"); else fprintf(obsf, "%.17g\n", v); } }
int vsx_writable(void const *, uint64_t) { return 1; }
int vsx_param(void) { char const *p = getenv("VSX_PARAM"); return p ? atoi(p) : 0; }
int vsx_symbolic(void) { return 0; }
void vsx_expect_abort(void) { expectAbort = true; }
}
// live heap blocks
#ifndef VSX_ASAN
static long live, liveMark;
extern "C" void *__libc_malloc(size_t); extern "C" void __libc_free(void *); extern "C" void *__libc_calloc(size_t, size_t); extern "C" void *__libc_realloc(void *, size_t); extern "C" void *__libc_memalign(size_t, size_t);
extern "C" void *malloc(size_t n) { __sync_fetch_and_add(&live, 1); return __libc_malloc(n); }
extern "C" void *calloc(size_t a, size_t b) { __sync_fetch_and_add(&live, 1); return __libc_calloc(a, b); }
extern "C" void *realloc(void *p, size_t n) { if (!p) __sync_fetch_and_add(&live, 1); return __libc_realloc(p, n); }
extern "C" void free(void *p) { if (p) __sync_fetch_and_sub(&live, 1); __libc_free(p); }
extern "C" void *memalign(size_t a, size_t n) { __sync_fetch_and_add(&live, 1); return __libc_memalign(a, n); }
extern "C" void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
extern "C" int posix_memalign(void **p, size_t a, size_t n) { *p = memalign(a, n); return *p ? 0 : 12; }
extern "C" void vsx_leak_mark(void) { liveMark = live; }
extern "C" int vsx_leaks(void) { return (int)(live - liveMark); }
#else
extern "C" void vsx_leak_mark(void) {}
extern "C" int vsx_leaks(void) { return 0; }
#endif
// cooperative threads: a baton is passed round robin, exactly as in the executor
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static std::vector<int> *alive; static int baton; static thread_local int me; static long idle;
static void pass() { int n = alive->size(); for (int i = 1; i <= n; ++i) { int k = (baton + i) % n; if ((*alive)[k]) { baton = k; break; } } pthread_cond_broadcast(&cv); }
static void init0() { if (!alive) { alive = new std::vector<int>(1, 1); baton = 0; } }
struct Start { void (*f)(void *); void *a; int k; };
static void *tmain(void *p) { Start s = *(Start *)p; delete (Start *)p; me = s.k; pthread_mutex_lock(&mu); while (baton != me) pthread_cond_wait(&cv, &mu); pthread_mutex_unlock(&mu); s.f(s.a); pthread_mutex_lock(&mu); (*alive)[me] = 0; pass(); pthread_mutex_unlock(&mu); return 0; }
extern "C" {
int vsx_self(void) { return me; }
int vsx_spawn(void (*f)(void *), void *a) { init0(); int k = alive->size(); alive->push_back(1); pthread_t t; pthread_create(&t, 0, tmain, new Start{f, a, k}); pthread_detach(t); return k; }
void vsx_yield(void) { init0(); pthread_mutex_lock(&mu); if (++idle > 200000) { fprintf(stderr, "VSX-ASSERT-FAIL no thread makes progress\n"); _exit(77); } pass(); while (baton != me) pthread_cond_wait(&cv, &mu); pthread_mutex_unlock(&mu); }
void vsx_join(void) { init0(); for (;;) { int n = 0; for (size_t i = 0; i < alive->size(); ++i) if ((int)i != me && (*alive)[i]) ++n; if (!n) return; vsx_yield(); } }
}
int main(int argc, char **argv) {
  load(); void *h = dlopen(0, RTLD_NOW); void (*f)() = (void (*)())dlsym(h, argv[1]);
  if (!f) { fprintf(stderr, "no entry %s\n", argv[1]); return 3; }
  try { f(); } catch (std::exception const &e) { fprintf(stderr, "VSX-ASSERT-FAIL uncaught exception %s\n", e.what()); failed = 1; } catch (...) { fprintf(stderr, "VSX-ASSERT-FAIL uncaught exception\n"); failed = 1; }
  fin(); _exit(failed ? 77 : 0);
}
