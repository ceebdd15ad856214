#define _GNU_SOURCE
#include "wrap.h"
#include <errno.h>
#include <fftw3.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>

void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
int __real_posix_memalign(void**, size_t, size_t); void* __real_aligned_alloc(size_t, size_t);
void* __real_memalign(size_t, size_t); void __real_free(void*);

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
#define TS (1u << 16)
static struct ent { void* p; size_t n; int st; } tab[TS]; /* st: 0 empty 1 live 2 freed */
static long live, live_bytes, req, inj, fail_at = -1; static int sticky;
static long preq, pfail_at = -1; static int psticky;
static char err[256]; static int have_err; static int junk = -1; static int plan_real;
static unsigned used;

static unsigned hs(void* p) { uint64_t v = (uint64_t)(uintptr_t)p; v ^= v >> 33; v *= 0xff51afd7ed558ccdULL; v ^= v >> 29; return (unsigned)v & (TS - 1); }
static struct ent* look(void* p, int create) {
  unsigned i = hs(p);
  for (unsigned k = 0; k < TS; k++, i = (i + 1) & (TS - 1)) {
    if (tab[i].st == 0) {
      if (!create) return 0;
      if (++used > TS * 3 / 4) { /* drop freed marks, rebuild */
        static struct ent cp[TS]; unsigned n = 0;
        for (unsigned q = 0; q < TS; q++) if (tab[q].st == 1) cp[n++] = tab[q];
        memset(tab, 0, sizeof tab); used = 0;
        for (unsigned q = 0; q < n; q++) { unsigned z = hs(cp[q].p); while (tab[z].st) z = (z + 1) & (TS - 1); tab[z] = cp[q]; used++; }
        return look(p, 1);
      }
      tab[i].p = p; return &tab[i];
    }
    if (tab[i].p == p) return &tab[i];
  }
  return 0;
}
static void seterr(const char* m) { if (!have_err) { have_err = 1; snprintf(err, sizeof err, "%s", m); } }
static void add(void* p, size_t n) {
  if (!p) return;
  pthread_mutex_lock(&mu);
  struct ent* e = look(p, 1);
  e->st = 1; e->n = n; live++; live_bytes += (long)n;
  pthread_mutex_unlock(&mu);
}
static int should_fail(void) {
  int r = 0;
  pthread_mutex_lock(&mu);
  req++;
  if (fail_at > 0 && (req == fail_at || (sticky && req > fail_at))) { r = 1; inj++; }
  pthread_mutex_unlock(&mu);
  return r;
}
static void fillj(void* p, size_t n) { if (p && junk >= 0) memset(p, junk, n); }
void* __wrap_malloc(size_t n) { if (should_fail()) { errno = ENOMEM; return 0; } void* p = __real_malloc(n); fillj(p, n); add(p, n); return p; }
void* __wrap_calloc(size_t a, size_t b) { if (should_fail()) { errno = ENOMEM; return 0; } void* p = __real_calloc(a, b); add(p, a * b); return p; }
int __wrap_posix_memalign(void** o, size_t al, size_t n) {
  if (should_fail()) return ENOMEM;
  int r = __real_posix_memalign(o, al, n); if (!r) { fillj(*o, n); add(*o, n); } return r;
}
void* __wrap_aligned_alloc(size_t al, size_t n) { if (should_fail()) { errno = ENOMEM; return 0; } void* p = __real_aligned_alloc(al, n); fillj(p, n); add(p, n); return p; }
void* __wrap_memalign(size_t al, size_t n) { if (should_fail()) { errno = ENOMEM; return 0; } void* p = __real_memalign(al, n); fillj(p, n); add(p, n); return p; }
void __wrap_free(void* p) {
  if (!p) return;
  pthread_mutex_lock(&mu);
  struct ent* e = look(p, 0);
  int skip = 0;
  if (e && e->st == 1) { e->st = 2; live--; live_bytes -= (long)e->n; }
  else if (e && e->st == 2) { seterr("memory block freed twice"); skip = 1; }
  pthread_mutex_unlock(&mu);
  if (!skip) __real_free(p);
}
void* __wrap_realloc(void* p, size_t n) {
  if (should_fail()) { errno = ENOMEM; return 0; }
  pthread_mutex_lock(&mu);
  struct ent* e = p ? look(p, 0) : 0;
  if (e && e->st == 1) { e->st = 2; live--; live_bytes -= (long)e->n; }
  pthread_mutex_unlock(&mu);
  void* q = __real_realloc(p, n); add(q, n); return q;
}
/* ---- FFTW plans ---- */
#define PMAX 4096
static struct { fftw_plan p; int st; int epoch; } pl[PMAX]; static int npl; static long live_plans; static int epoch;
static fftw_plan padd(fftw_plan p) {
  if (!p) return p;
  pthread_mutex_lock(&mu);
  int i; for (i = 0; i < npl; i++) if (pl[i].p == p || pl[i].st == 2) break;
  /* prefer the exact pointer */
  for (int j = 0; j < npl; j++) if (pl[j].p == p) i = j;
  if (i == npl && npl < PMAX) npl++;
  if (i < PMAX) { pl[i].p = p; pl[i].st = 1; pl[i].epoch = epoch; }
  live_plans++;
  pthread_mutex_unlock(&mu);
  return p;
}
static int pfail(void) { int r = 0; pthread_mutex_lock(&mu); preq++; if (pfail_at > 0 && (preq == pfail_at || (psticky && preq > pfail_at))) { r = 1; inj++; } pthread_mutex_unlock(&mu); return r; }
static unsigned fl(unsigned f) { return plan_real ? f : ((f & ~(FFTW_PATIENT | FFTW_EXHAUSTIVE)) | FFTW_ESTIMATE); }
fftw_plan __real_fftw_plan_r2r_1d(int, double*, double*, fftw_r2r_kind, unsigned);
fftw_plan __real_fftw_plan_r2r_2d(int, int, double*, double*, fftw_r2r_kind, fftw_r2r_kind, unsigned);
fftw_plan __real_fftw_plan_r2r(int, const int*, double*, double*, const fftw_r2r_kind*, unsigned);
fftw_plan __wrap_fftw_plan_r2r_1d(int n, double* a, double* b, fftw_r2r_kind k, unsigned f) { if (pfail()) return 0; return padd(__real_fftw_plan_r2r_1d(n, a, b, k, fl(f))); }
fftw_plan __wrap_fftw_plan_r2r_2d(int n, int m, double* a, double* b, fftw_r2r_kind k, fftw_r2r_kind l, unsigned f) { if (pfail()) return 0; return padd(__real_fftw_plan_r2r_2d(n, m, a, b, k, l, fl(f))); }
fftw_plan __wrap_fftw_plan_r2r(int r, const int* n, double* a, double* b, const fftw_r2r_kind* k, unsigned f) { if (pfail()) return 0; return padd(__real_fftw_plan_r2r(r, n, a, b, k, fl(f))); }
void __real_fftw_destroy_plan(fftw_plan); void __real_fftw_execute(const fftw_plan); void __real_fftw_execute_r2r(const fftw_plan, double*, double*);
void __real_fftw_cleanup(void); void __real_fftw_cleanup_threads(void);
static int pstate(fftw_plan p, int kill) {
  int r = 0;
  pthread_mutex_lock(&mu);
  for (int i = 0; i < npl; i++) if (pl[i].p == p) { r = pl[i].st; if (r == 1 && pl[i].epoch != epoch) r = 3; if (kill && r == 1) { pl[i].st = 2; live_plans--; } }
  pthread_mutex_unlock(&mu);
  return r;
}
void __wrap_fftw_destroy_plan(fftw_plan p) {
  if (!p) return;
  int s = pstate(p, 1);
  if (s == 2) { seterr("DCT plan destroyed twice"); return; }
  if (s == 3) { seterr("DCT plan destroyed after planner clean-up"); return; }
  if (s == 0) { seterr("unknown DCT plan destroyed"); return; }
  __real_fftw_destroy_plan(p);
}
void __wrap_fftw_execute(const fftw_plan p) { int s = pstate(p, 0); if (s != 1) { seterr("DCT plan used after it was destroyed"); return; } __real_fftw_execute(p); }
void __wrap_fftw_execute_r2r(const fftw_plan p, double* a, double* b) { int s = pstate(p, 0); if (s != 1) { seterr("DCT plan used after it was destroyed"); return; } __real_fftw_execute_r2r(p, a, b); }
void __wrap_fftw_cleanup(void) { pthread_mutex_lock(&mu); epoch++; pthread_mutex_unlock(&mu); __real_fftw_cleanup(); }
void __wrap_fftw_cleanup_threads(void) { pthread_mutex_lock(&mu); epoch++; pthread_mutex_unlock(&mu); __real_fftw_cleanup_threads(); }
/* FFTW's own allocator */
void* __real_fftw_malloc(size_t); void* __real_fftw_alloc_real(size_t); void __real_fftw_free(void*);
void* __wrap_fftw_malloc(size_t n) { if (should_fail()) return 0; void* p = __real_fftw_malloc(n); add(p, n); return p; }
void* __wrap_fftw_alloc_real(size_t n) { if (should_fail()) return 0; void* p = __real_fftw_alloc_real(n); add(p, n * 8); return p; }
void __wrap_fftw_free(void* p) {
  if (!p) return;
  pthread_mutex_lock(&mu);
  struct ent* e = look(p, 0); int skip = 0;
  if (e && e->st == 1) { e->st = 2; live--; live_bytes -= (long)e->n; }
  else if (e && e->st == 2) { seterr("memory block freed twice"); skip = 1; }
  pthread_mutex_unlock(&mu);
  if (!skip) __real_fftw_free(p);
}
/* ---- control ---- */
void wrap_reset(void) { have_err = 0; err[0] = 0; fail_at = -1; sticky = 0; pfail_at = -1; psticky = 0; req = preq = inj = 0; }
void wrap_arm(long k, int st) { req = 0; fail_at = k; sticky = st; }
void wrap_arm_plan(long k, int st) { preq = 0; pfail_at = k; psticky = st; }
void wrap_disarm(void) { fail_at = -1; pfail_at = -1; sticky = psticky = 0; }
long wrap_requests(void) { return req; }
long wrap_plan_requests(void) { return preq; }
long wrap_injected(void) { return inj; }
long wrap_live(void) { return live; }
long wrap_live_bytes(void) { return live_bytes; }
long wrap_live_plans(void) { return live_plans; }
const char* wrap_error(void) { return have_err ? err : 0; }
void wrap_forget_live(void) { memset(tab, 0, sizeof tab); used = 0; live = live_bytes = 0; npl = 0; live_plans = 0; }
void wrap_plan_real(int on) { plan_real = on; }
size_t wrap_block_size(const void* p) { /* bytes from p to the end of its block */
  struct ent* e = look((void*)p, 0); if (e && e->st == 1) return e->n;
  uintptr_t a = (uintptr_t)p;
  for (unsigned i = 0; i < TS; i++) if (tab[i].st == 1 && (uintptr_t)tab[i].p <= a && a < (uintptr_t)tab[i].p + tab[i].n) return tab[i].n - (a - (uintptr_t)tab[i].p);
  return 0;
}
void wrap_junk(int b) { junk = b; }
