#include "sched.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
extern "C" void fiber_switch(void** save, void* load);
asm(R"(
.text
.globl fiber_switch
.type fiber_switch,@function
fiber_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size fiber_switch,.-fiber_switch
)");
namespace sched {
static const size_t STK = 256 * 1024;
struct Access { uintptr_t a; uint32_t n; uint16_t tid; bool w; uintptr_t pc; };
struct WS { bool init = false; long next = 0, end = 0, incr = 1, chunk = 1; int done = 0; bool taken = false; void* copy = nullptr; };
struct Team;
struct Fiber {
  void* sp = nullptr; char* stk = nullptr; int tid = 0; int st = 0;  // 0 ready 1 blocked 2 done
  Team* team = nullptr; int ws = 0; void* lock = nullptr; bool inbar = false; long static_k = 0; int nested = 0;
};
struct Team { int n; std::vector<Fiber> f; void (*fn)(void*); void* data; int arrived = 0; std::map<int, WS> ws; };
static Config C; static Stats S;
static Team* T = nullptr; static Fiber* cur = nullptr; static void* main_sp;
static std::vector<char*> pool;
static long region;
static std::vector<Access> log_;
static bool recording, exploring;
static std::unordered_map<long, std::unordered_set<uintptr_t>> hot;   // region -> conflicting program points
static std::unordered_set<long> hotsync;
static long nsync;
static std::set<int> syncers;
static std::map<void*, int> locks;   // lock -> owner tid
static const std::unordered_set<uintptr_t>* hp; static bool hs;
static std::string trace_, ctext; static int last_run; static long preempt_left;
static void fail(const char* w) { S.deadlock = true; S.what = w; }

static void leave() { fiber_switch(&cur->sp, main_sp); }
static void entry() { cur->team->fn(cur->team->data); cur->st = 2; leave(); abort(); }
static void prepare(Fiber& f) {
  if ((size_t)f.tid >= pool.size()) {
    char* p = (char*)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(p, 4096, PROT_NONE);
    pool.push_back(p);
  }
  f.stk = pool[f.tid];
  uintptr_t top = (uintptr_t)(f.stk + STK) & ~(uintptr_t)63;
  void** s = (void**)(top - 64);
  *--s = nullptr;            // alignment: at entry rsp % 16 == 8
  *--s = (void*)entry;
  for (int i = 0; i < 6; i++) *--s = nullptr;
  f.sp = s;
}
static bool waiting_ok(Fiber& f) {
  if (f.st == 2) return false;
  if (f.inbar) return false;
  if (f.lock) { auto it = locks.find(f.lock); return it == locks.end() || it->second < 0; }
  return true;
}
static void note_pick(int k) {
  if (k != last_run) { S.switches++; if (trace_.size() < 400) trace_ += (trace_.empty() ? "" : " ") + std::to_string(k); last_run = k; }
}
static void point(bool is_hot) {
  if (!exploring || !is_hot) return;
  S.points++;
  if (C.mode == EXPLORE && preempt_left <= 0) return;
  leave();     // the scheduler may let another thread go on
}
static void run_team(Team& t) {
  int c = -1;
  for (;;) {
    std::vector<int> en;
    int alive = 0, waiting = 0;
    for (auto& f : t.f) { if (f.st != 2) alive++; if (f.st != 2 && f.inbar) waiting++; }
    if (!alive) break;
    if (waiting == alive) {
      if (alive != t.n) fail("a thread waits at a barrier that others never reach");
      for (auto& f : t.f) f.inbar = false; c = -1;
    }
    bool cur_ok = c >= 0 && waiting_ok(t.f[c]);
    for (int i = 0; i < t.n; i++) if (waiting_ok(t.f[i])) en.push_back(i);
    if (en.empty()) { fail("all threads are blocked (deadlock)"); break; }
    int k;
    if (C.mode == EXPLORE && exploring) {
      // default first: current thread if it can go on, else the lowest
      if (cur_ok) { std::swap(en[0], *std::find(en.begin(), en.end(), c)); }
      int n = preempt_left > 0 ? (int)en.size() : 1;
      int ch = n > 1 ? C.choose(n) : 0;
      if (ch) preempt_left--;
      k = en[ch];
    } else if (C.mode == RR && exploring) {
      k = -1; for (int i : en) if (i > c) { k = i; break; } if (k < 0) k = en[0];
    } else if (C.mode == DESC) k = cur_ok ? c : en.back();
    else k = cur_ok ? c : en[0];
    c = k; note_pick(k);
    cur = &t.f[k];
    fiber_switch(&main_sp, cur->sp);
    cur = nullptr;
  }
}
static void analyse() {
  // conflicting 4-byte granules: touched by two threads, at least one write
  struct I { uint64_t r[2] = {0, 0}, w[2] = {0, 0}; };
  std::unordered_map<uintptr_t, I> m; m.reserve(log_.size() * 2);
  for (auto& x : log_) for (uintptr_t g = x.a >> 2; g <= (x.a + x.n - 1) >> 2; g++) { auto& i = m[g]; (x.w ? i.w : i.r)[x.tid >> 6 & 1] |= 1ULL << (x.tid & 63); }
  auto conf = [&](uintptr_t g) { auto& i = m[g]; int w = __builtin_popcountll(i.w[0]) + __builtin_popcountll(i.w[1]); int a = __builtin_popcountll(i.w[0] | i.r[0]) + __builtin_popcountll(i.w[1] | i.r[1]); return w > 0 && a > 1; };
  for (auto& x : log_) {
    bool h = false; for (uintptr_t g = x.a >> 2; g <= (x.a + x.n - 1) >> 2 && !h; g++) h = conf(g);
    if (h) { if (hot[region].insert(x.pc).second && ctext.size() < 300) { char b[80]; snprintf(b, 80, "%sregion %ld: %s %u bytes by thread %d", ctext.empty() ? "" : "; ", region, x.w ? "write" : "read", x.n, x.tid); ctext += b; } S.conflict_accesses++; }
  }
  if (hot.count(region)) S.conflicts += hot[region].size();
  if (syncers.size() > 1) { hotsync.insert(region); S.conflicts++; S.hot_sync += nsync; }
}
static inline void acc(const void* p, size_t n, bool w, uintptr_t pc) {
  if (!cur || !n) return;
  S.accesses++;
  uintptr_t a = (uintptr_t)p;
  if (a >= (uintptr_t)cur->stk && a < (uintptr_t)cur->stk + STK) return;
  if (recording) log_.push_back({a, (uint32_t)n, (uint16_t)cur->tid, w, pc});
  else if (exploring && hp && hp->count(pc)) point(true);
}
static inline void syncop() {
  if (!cur) return;
  S.sync_ops++;
  if (recording) { syncers.insert(cur->tid); nsync++; }
  else point(hs);
}
static void parallel(void (*fn)(void*), void* data, unsigned nt, WS* ws0 = nullptr) {
  if (cur) { cur->nested++; int sw = cur->ws; (void)sw; fn(data); cur->nested--; return; }
  int n = nt ? (int)nt : C.max_threads;
  n = std::max(1, std::min(n, C.limit));
  if (n > 128) n = 128;
  S.regions++; S.threads = std::max(S.threads, (long)n);
  Team t; t.n = n; t.fn = fn; t.data = data; t.f.resize(n);
  if (ws0) t.ws[0] = *ws0;
  for (int i = 0; i < n; i++) { t.f[i].tid = i; t.f[i].team = &t; prepare(t.f[i]); if (ws0) t.f[i].ws = 1; }
  T = &t; locks.clear(); syncers.clear(); nsync = 0; log_.clear(); last_run = -1;
  recording = C.mode == ASC;
  hp = nullptr; hs = false;
  if (C.mode == EXPLORE || C.mode == RR) { auto it = hot.find(region); if (it != hot.end()) hp = &it->second; hs = hotsync.count(region); }
  exploring = n > 1 && (hp || hs);
  run_team(t);
  if (recording && n > 1) analyse();
  recording = exploring = false;
  T = nullptr; region++;
}
void start(const Config& c) { C = c; S = Stats(); region = 0; trace_.clear(); preempt_left = c.preemptions; if (c.mode == ASC) { hot.clear(); hotsync.clear(); ctext.clear(); } }
Stats stop() { return S; }
bool conflicts_found() { return !hot.empty() || !hotsync.empty(); }
std::string schedule() { return trace_; }
std::string conflict_text() { return ctext; }
static WS& ws(int back = 0) { return T->ws[cur->ws - 1 - back]; }
static bool solo() { return !cur || cur->nested; }
}
using namespace sched;
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
// ---------------- omp queries ----------------
int shim_omp_get_thread_num() { return solo() ? 0 : cur->tid; }
int shim_omp_get_num_threads() { return solo() ? 1 : T->n; }
int shim_omp_get_max_threads() { return C.max_threads; }
int shim_omp_get_num_procs() { return C.max_threads; }
int shim_omp_in_parallel() { return cur && T->n > 1; }
void shim_omp_set_num_threads(int n) { if (n > 0) C.max_threads = n; }
int shim_omp_get_thread_limit() { return C.limit; }
int shim_omp_get_dynamic() { return 0; }
void shim_omp_set_dynamic(int) {}
int shim_omp_get_nested() { return 0; }
void shim_omp_set_nested(int) {}
int shim_omp_get_level() { return cur ? 1 + cur->nested : 0; }
// ---------------- parallel regions ----------------
void shim_GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { parallel(fn, d, n); }
static WS mkws(long s, long e, long inc, long ch) { WS w; w.init = true; w.next = s; w.end = e; w.incr = inc; w.chunk = ch > 0 ? ch : 1; return w; }
void shim_GOMP_parallel_loop_static(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, long ch, unsigned) { WS w = mkws(s, e, inc, ch); parallel(fn, d, n, &w); }
void shim_GOMP_parallel_loop_dynamic(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, long ch, unsigned) { WS w = mkws(s, e, inc, ch); parallel(fn, d, n, &w); }
void shim_GOMP_parallel_loop_guided(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, long ch, unsigned) { WS w = mkws(s, e, inc, ch); parallel(fn, d, n, &w); }
void shim_GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, long ch, unsigned) { WS w = mkws(s, e, inc, ch); parallel(fn, d, n, &w); }
void shim_GOMP_parallel_loop_nonmonotonic_guided(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, long ch, unsigned) { WS w = mkws(s, e, inc, ch); parallel(fn, d, n, &w); }
void shim_GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, unsigned) { WS w = mkws(s, e, inc, 1); parallel(fn, d, n, &w); }
void shim_GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, unsigned) { WS w = mkws(s, e, inc, 1); parallel(fn, d, n, &w); }
void shim_GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, unsigned) { WS w = mkws(s, e, inc, 1); parallel(fn, d, n, &w); }
void shim_GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned cnt, unsigned) { WS w = mkws(1, cnt + 1, 1, 1); parallel(fn, d, n, &w); }
// ---------------- work sharing ----------------
static WS solo_ws;
static bool grab(WS& w, long* a, long* b) {
  if (w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false;
  *a = w.next; long e = w.next + w.chunk * w.incr;
  if (w.incr > 0 ? e > w.end : e < w.end) e = w.end;
  *b = e; w.next = e; return true;
}
static bool loop_start(long s, long e, long inc, long ch, long* a, long* b) {
  if (solo()) { solo_ws = mkws(s, e, inc, ch); return grab(solo_ws, a, b); }
  cur->ws++;
  WS& w = ws(); if (!w.init) w = mkws(s, e, inc, ch);
  syncop();
  return grab(ws(), a, b);
}
static bool loop_next(long* a, long* b) { if (solo()) return grab(solo_ws, a, b); syncop(); return grab(ws(), a, b); }
#define LOOP(k) bool shim_GOMP_loop_##k##_start(long s, long e, long inc, long ch, long* a, long* b) { return loop_start(s, e, inc, ch, a, b); } \
  bool shim_GOMP_loop_##k##_next(long* a, long* b) { return loop_next(a, b); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define LOOPR(k) bool shim_GOMP_loop_##k##_start(long s, long e, long inc, long* a, long* b) { return loop_start(s, e, inc, 1, a, b); } \
  bool shim_GOMP_loop_##k##_next(long* a, long* b) { return loop_next(a, b); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void shim_GOMP_barrier() { if (solo()) return; cur->inbar = true; leave(); }
bool shim_GOMP_barrier_cancel() { shim_GOMP_barrier(); return false; }
void shim_GOMP_loop_end() { shim_GOMP_barrier(); }
bool shim_GOMP_loop_end_cancel() { shim_GOMP_barrier(); return false; }
void shim_GOMP_loop_end_nowait() {}
unsigned shim_GOMP_sections_next() { long a, b; return loop_next(&a, &b) ? (unsigned)a : 0; }
unsigned shim_GOMP_sections_start(unsigned n) { long a, b; return loop_start(1, n + 1, 1, 1, &a, &b) ? (unsigned)a : 0; }
void shim_GOMP_sections_end() { shim_GOMP_barrier(); }
void shim_GOMP_sections_end_nowait() {}
bool shim_GOMP_single_start() {
  if (solo()) return true;
  cur->ws++; syncop();
  WS& w = ws(); if (w.taken) return false; w.taken = true; return true;
}
// ---------------- locks ----------------
static char deflock, atomlock;
static void lock(void* l) {
  if (solo()) return;
  syncop();
  while (locks.count(l) && locks[l] >= 0) { if (locks[l] == cur->tid) { fail("a thread waits for a lock it holds"); return; } cur->lock = l; leave(); }
  cur->lock = nullptr; locks[l] = cur->tid;
}
static void unlock(void* l) { if (solo()) return; locks[l] = -1; syncop(); }
void shim_GOMP_critical_start() { lock(&deflock); }
void shim_GOMP_critical_end() { unlock(&deflock); }
void shim_GOMP_critical_name_start(void** p) { lock(p); }
void shim_GOMP_critical_name_end(void** p) { unlock(p); }
void shim_GOMP_atomic_start() { lock(&atomlock); }
void shim_GOMP_atomic_end() { unlock(&atomlock); }
void shim_omp_init_lock(void* l) {}
void shim_omp_destroy_lock(void* l) {}
void shim_omp_set_lock(void* l) { lock(l); }
void shim_omp_unset_lock(void* l) { unlock(l); }
// FFTW plans are made for one thread: FFTW's own threading is trusted
void shim_fftw_plan_with_nthreads(int) {}
int shim_fftw_init_threads() { return 1; }
void shim_fftw_cleanup_threads() {}
// ---------------- memory accesses (gcc -fsanitize=thread) ----------------
#define RW(n) void __tsan_read##n(void* p) { acc(p, n, false, PC); } void __tsan_write##n(void* p) { acc(p, n, true, PC); } \
  void __tsan_unaligned_read##n(void* p) { acc(p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { acc(p, n, true, PC); } \
  void __tsan_volatile_read##n(void* p) { acc(p, n, false, PC); } void __tsan_volatile_write##n(void* p) { acc(p, n, true, PC); } \
  void __tsan_unaligned_volatile_read##n(void* p) { acc(p, n, false, PC); } void __tsan_unaligned_volatile_write##n(void* p) { acc(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { acc(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { acc(p, n, true, PC); }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define AT(b, t) \
  t __tsan_atomic##b##_load(const volatile t* p, int) { acc((void*)p, sizeof(t), true, PC); return *p; } \
  void __tsan_atomic##b##_store(volatile t* p, t v, int) { acc((void*)p, sizeof(t), true, PC); *p = v; } \
  t __tsan_atomic##b##_exchange(volatile t* p, t v, int) { acc((void*)p, sizeof(t), true, PC); t o = *p; *p = v; return o; } \
  t __tsan_atomic##b##_fetch_add(volatile t* p, t v, int) { acc((void*)p, sizeof(t), true, PC); t o = *p; *p = o + v; return o; } \
  t __tsan_atomic##b##_fetch_sub(volatile t* p, t v, int) { acc((void*)p, sizeof(t), true, PC); t o = *p; *p = o - v; return o; } \
  t __tsan_atomic##b##_fetch_and(volatile t* p, t v, int) { acc((void*)p, sizeof(t), true, PC); t o = *p; *p = o & v; return o; } \
  t __tsan_atomic##b##_fetch_or(volatile t* p, t v, int) { acc((void*)p, sizeof(t), true, PC); t o = *p; *p = o | v; return o; } \
  t __tsan_atomic##b##_fetch_xor(volatile t* p, t v, int) { acc((void*)p, sizeof(t), true, PC); t o = *p; *p = o ^ v; return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile t* p, t* e, t v, int, int) { acc((void*)p, sizeof(t), true, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile t* p, t* e, t v, int, int) { acc((void*)p, sizeof(t), true, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  t __tsan_atomic##b##_compare_exchange_val(volatile t* p, t e, t v, int, int) { acc((void*)p, sizeof(t), true, PC); t o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
// ---------------- block operations the library may call inside a region ----------------
void* shim_memcpy(void* d, const void* s, size_t n) { acc(s, n, false, PC); acc(d, n, true, PC); return memcpy(d, s, n); }
void* shim_memmove(void* d, const void* s, size_t n) { acc(s, n, false, PC); acc(d, n, true, PC); return memmove(d, s, n); }
void* shim_memset(void* d, int v, size_t n) { acc(d, n, true, PC); return memset(d, v, n); }
#define EXT(n, inc) ((n) > 0 ? ((size_t)((n)-1) * (size_t)((inc) < 0 ? -(inc) : (inc)) + 1) * 8 : 0)
void cblas_daxpy(int, double, const double*, int, double*, int);
void cblas_dcopy(int, const double*, int, double*, int);
void cblas_dscal(int, double, double*, int);
double cblas_ddot(int, const double*, int, const double*, int);
double cblas_dnrm2(int, const double*, int);
double cblas_dasum(int, const double*, int);
void shim_cblas_daxpy(int n, double a, const double* x, int ix, double* y, int iy) { acc(x, EXT(n, ix), false, PC); acc(y, EXT(n, iy), true, PC); cblas_daxpy(n, a, x, ix, y, iy); }
void shim_cblas_dcopy(int n, const double* x, int ix, double* y, int iy) { acc(x, EXT(n, ix), false, PC); acc(y, EXT(n, iy), true, PC); cblas_dcopy(n, x, ix, y, iy); }
void shim_cblas_dscal(int n, double a, double* x, int ix) { acc(x, EXT(n, ix), true, PC); cblas_dscal(n, a, x, ix); }
double shim_cblas_ddot(int n, const double* x, int ix, const double* y, int iy) { acc(x, EXT(n, ix), false, PC); acc(y, EXT(n, iy), false, PC); return cblas_ddot(n, x, ix, y, iy); }
double shim_cblas_dnrm2(int n, const double* x, int ix) { acc(x, EXT(n, ix), false, PC); return cblas_dnrm2(n, x, ix); }
double shim_cblas_dasum(int n, const double* x, int ix) { acc(x, EXT(n, ix), false, PC); return cblas_dasum(n, x, ix); }
}
