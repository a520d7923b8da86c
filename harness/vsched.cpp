// See vsched.h. Compiled without instrumentation.
#include "vsched.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); }
namespace {
enum St { RUN, BLK_MUTEX, BLK_COND, BLK_JOIN, DONE };
struct Th {
  St st; const void* on; int joinOn; bool timed; bool timedOut; int fut; long prio; char* slo; char* shi; pthread_t pt; bool alive;
};
const int MAXT = 64;
Th g_th[MAXT];
int g_nth = 0, g_cur = -1;
volatile bool g_active = false;
thread_local int t_tid = -1;
thread_local int t_gen = -1;
thread_local int t_pause = 0;
int g_gen = 0;
uint64_t g_rng, g_salt; int g_policy, g_param;
long g_steps, g_switches, g_ticks, g_run, g_limit = 3000000; long g_est = 400; std::vector<long>* g_change; long g_low;
uint64_t g_hash;
std::vector<SchedEvent>* g_trace;
int (*r_lock)(pthread_mutex_t*); int (*r_trylock)(pthread_mutex_t*); int (*r_unlock)(pthread_mutex_t*);
int (*r_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*); int (*r_join)(pthread_t, void**);
int (*r_cwait)(pthread_cond_t*, pthread_mutex_t*); int (*r_ctwait)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
int (*r_csig)(pthread_cond_t*); int (*r_cbc)(pthread_cond_t*); int (*r_usleep)(useconds_t); int (*r_nanosleep)(const timespec*, timespec*); int (*r_yield)();
void initReal() {
  static bool done = false; if (done) return; done = true;
  *(void**)&r_lock = dlsym(RTLD_NEXT, "pthread_mutex_lock"); *(void**)&r_trylock = dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  *(void**)&r_unlock = dlsym(RTLD_NEXT, "pthread_mutex_unlock"); *(void**)&r_create = dlsym(RTLD_NEXT, "pthread_create");
  *(void**)&r_join = dlsym(RTLD_NEXT, "pthread_join"); *(void**)&r_cwait = dlsym(RTLD_NEXT, "pthread_cond_wait");
  *(void**)&r_ctwait = dlsym(RTLD_NEXT, "pthread_cond_timedwait"); *(void**)&r_csig = dlsym(RTLD_NEXT, "pthread_cond_signal");
  *(void**)&r_cbc = dlsym(RTLD_NEXT, "pthread_cond_broadcast"); *(void**)&r_usleep = dlsym(RTLD_NEXT, "usleep");
  *(void**)&r_nanosleep = dlsym(RTLD_NEXT, "nanosleep"); *(void**)&r_yield = dlsym(RTLD_NEXT, "sched_yield");
}
struct Init { Init() { initReal(); } } g_init __attribute__((init_priority(101)));
inline uint64_t rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng * 0x2545F4914F6CDD1DULL >> 11; }
void fwait(int* f) { while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); __atomic_store_n(f, 0, __ATOMIC_RELEASE); }
void fwake(int* f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
void die(const char* why, int code) {
  printf("\nSCHED: %s after %ld steps (%ld switches)\n", why, g_steps, g_switches);
  for (int i = 0; i < g_nth; ++i) printf("SCHED:  thread %d: %s\n", i, g_th[i].st == RUN ? "runnable" : g_th[i].st == BLK_MUTEX ? "waiting for a mutex" : g_th[i].st == BLK_COND ? "waiting for a condition" : g_th[i].st == BLK_JOIN ? "joining" : "finished");
  size_t n = g_trace->size();
  for (size_t i = n > 12 ? n - 12 : 0; i < n; ++i) printf("SCHED:  event t%d %s %ld %ld %ld\n", (*g_trace)[i].tid, (*g_trace)[i].ev, (*g_trace)[i].a, (*g_trace)[i].b, (*g_trace)[i].c);
  fflush(stdout); _exit(code);
}
inline bool mine() { return g_active && t_tid >= 0 && t_gen == g_gen && t_pause == 0; }
int pick(bool mustSwitch) {
  int run[MAXT], n = 0;
  // timed waits may expire at any time
  for (int i = 0; i < g_nth; ++i) if (g_th[i].st == RUN || (g_th[i].st == BLK_COND && g_th[i].timed)) run[n++] = i;
  if (n == 0) die("deadlock: no thread can run", 76);
  if (g_policy == 1 || g_policy == 3) { int b = run[0]; for (int i = 1; i < n; ++i) if (g_th[run[i]].prio > g_th[b].prio) b = run[i]; return b; }
  if (g_policy == 2) { if (!mustSwitch && g_th[g_cur].st == RUN) return g_cur; return run[rnd() % n]; }
  return run[rnd() % n];
}
void switchTo(int nx) {
  int me = t_tid;
  if (g_th[nx].st == BLK_COND && g_th[nx].timed) { g_th[nx].st = RUN; g_th[nx].timedOut = true; }
  if (nx == me) return;
  ++g_switches; g_run = 0;
  g_hash = (g_hash ^ (uint64_t)nx) * 1099511628211ULL; g_hash = (g_hash ^ (uint64_t)g_steps) * 1099511628211ULL;
  g_cur = nx;
  fwake(&g_th[nx].fut);
  fwait(&g_th[me].fut);
}
inline bool hot(const void* p) { uint64_t h = ((uintptr_t)p >> 3) * 0x9E3779B97F4A7C15ULL ^ g_salt; h *= 0xD6E8FEB86659FD93ULL; return (h >> 40) % g_param == 0; }
void step(bool yielding = false, const void* what = 0) {
  ++g_steps; ++g_run;
  if (g_steps > g_limit) die("did not terminate (step bound)", 75);
  if (yielding || g_run > 20000) { g_th[t_tid].prio = --g_low; g_run = 0; }
  if (g_policy == 3) {   // priorities redrawn at accesses to the few places chosen for this schedule
    if (what && hot(what) && rnd() % 2) g_th[t_tid].prio = 1000 + rnd() % 1000;
    switchTo(pick(yielding));
  } else if (g_policy == 1) {
    for (size_t i = 0; i < g_change->size(); ++i) if ((*g_change)[i] == g_steps) g_th[t_tid].prio = --g_low;
    switchTo(pick(yielding));
  } else if (g_policy == 2) { if (yielding || g_run == 0) switchTo(pick(true)); }
  else if (yielding || g_run == 0 || rnd() % g_param == 0) switchTo(pick(yielding));
}
void blockOn(St st, const void* on) {
  Th& t = g_th[t_tid]; t.st = st; t.on = on; ++g_steps;
  int nx = pick(true);
  switchTo(nx);
}
// ------------------------------------------------------------------ which memory is shared
struct Sh { uintptr_t a; uint32_t gen; uint8_t tid, shared; };
const size_t SHN = 1 << 18;
Sh* g_sh; 
const size_t PCN = 1 << 16;
uint32_t* g_pc;   // call sites known to touch shared memory
inline size_t hsh(uintptr_t x) { return (x * 0x9E3779B97F4A7C15ULL) >> 40; }
// freed memory under quarantine
struct Q { void* p; size_t n; };
const size_t FRN = 1 << 20;
struct Fr { uintptr_t a; uint32_t gen; };
Fr* g_fr; std::vector<Q>* g_q; size_t g_qbytes; char g_uafmsg[300]; bool g_uaf; bool g_inq;
inline bool freed(uintptr_t g) {
  if (!g_fr) return false;
  for (size_t i = hsh(g) & (FRN - 1), k = 0; k < 16; ++k, i = (i + 1) & (FRN - 1)) { if (g_fr[i].gen != (uint32_t)g_gen) return false; if (g_fr[i].a == g) return true; }
  return false;
}
void access(const void* p, void* pc, bool write) {
  if (!mine()) return;
  if (++g_ticks > 400000000L) die("did not terminate (execution bound)", 75);
  uintptr_t a = (uintptr_t)p;
  Th& t = g_th[t_tid];
  if ((char*)p >= t.slo && (char*)p < t.shi) return;
  if (!g_uaf && freed(a >> 3)) { g_uaf = true; Dl_info di; const char* n = "?"; if (dladdr(pc, &di) && di.dli_sname) n = di.dli_sname;
    snprintf(g_uafmsg, sizeof g_uafmsg, "%s of freed memory by thread %d in %s", write ? "write" : "read", t_tid, n); }
  uintptr_t g = a >> 3;
  size_t i = hsh(g) & (SHN - 1); bool vis = false;
  for (size_t k = 0; k < 8; ++k, i = (i + 1) & (SHN - 1)) {
    Sh& s = g_sh[i];
    if (s.gen != (uint32_t)g_gen) { s.a = g; s.gen = g_gen; s.tid = t_tid; s.shared = 0; break; }
    if (s.a == g) { if (s.shared) vis = true; else if (s.tid != t_tid) { s.shared = 1; vis = true; } break; }
    if (k == 7) vis = true;
  }
  size_t pi = hsh((uintptr_t)pc) & (PCN - 1); uint32_t pk = (uint32_t)(uintptr_t)pc;
  if (vis) g_pc[pi] = pk; else if (g_pc[pi] == pk) vis = true;
  if (vis) step(false, p);
}
struct Start { void* (*f)(void*); void* arg; int tid; int gen; };
void setStack(Th& t) { pthread_attr_t a; void* lo; size_t n; t.slo = t.shi = 0; if (pthread_getattr_np(pthread_self(), &a) == 0) { pthread_attr_getstack(&a, &lo, &n); t.slo = (char*)lo; t.shi = t.slo + n; pthread_attr_destroy(&a); } }
void* tramp(void* v) {
  Start s = *(Start*)v; free(v);
  t_gen = s.gen; 
  setStack(g_th[s.tid]);
  fwait(&g_th[s.tid].fut);
  t_tid = s.tid;
  void* r = s.f(s.arg);
  // finished
  g_th[t_tid].st = DONE;
  for (int i = 0; i < g_nth; ++i) if (g_th[i].st == BLK_JOIN && g_th[i].joinOn == t_tid) g_th[i].st = RUN;
  ++g_steps;
  int me = t_tid; t_tid = -1;
  int nx = pick(true); (void)me;
  if (g_th[nx].st == BLK_COND) { g_th[nx].st = RUN; g_th[nx].timedOut = true; }
  ++g_switches; g_run = 0; g_hash = (g_hash ^ (uint64_t)nx) * 1099511628211ULL; g_cur = nx; fwake(&g_th[nx].fut);
  return r;
}
void onAlarm(int) { const char m[] = "\nSCHED: no progress (uninstrumented loop or wait)\n"; (void)!write(1, m, sizeof m - 1); _exit(74); }
}
std::vector<SchedEvent>& sched_trace() { if (!g_trace) g_trace = new std::vector<SchedEvent>; return *g_trace; }
extern "C" {
void sched_begin(uint64_t seed, int policy, int param) {
  initReal(); if (const char* l = getenv("VSCHED_LIMIT")) g_limit = atol(l); sched_trace().clear();
  if (!g_sh) { g_sh = (Sh*)mmap(0, SHN * sizeof(Sh), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); g_pc = (uint32_t*)calloc(PCN, 4); g_change = new std::vector<long>; g_q = new std::vector<Q>;
    g_fr = (Fr*)mmap(0, FRN * sizeof(Fr), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    signal(SIGALRM, onAlarm); g_q->reserve(1 << 16); }
  ++g_gen; g_rng = seed * 0x9E3779B97F4A7C15ULL + 0x1234567; if (!g_rng) g_rng = 1; for (int i = 0; i < 8; ++i) rnd();
  g_salt = rnd(); g_policy = policy; g_param = param < 1 ? 1 : param; g_steps = g_switches = g_ticks = g_run = 0; g_low = 0; g_hash = 1469598103934665603ULL; g_uaf = false;
  g_change->clear();
  if (policy == 1) for (int i = 0; i < param; ++i) g_change->push_back(1 + rnd() % (g_est + 1));
  g_nth = 1; memset(g_th, 0, sizeof g_th); g_th[0].st = RUN; g_th[0].prio = 1000 + rnd() % 1000; g_th[0].pt = pthread_self();
  t_tid = 0; t_gen = g_gen; g_cur = 0;
  alarm(120);
  g_active = true;
}
void sched_end() {
  for (int i = 1; i < g_nth; ++i) if (g_th[i].st != DONE) { // run the remaining threads to completion
    g_th[0].joinOn = i; blockOn(BLK_JOIN, 0); }
  g_active = false; alarm(0); t_tid = -1;
  g_est = g_steps > 10 ? g_steps : g_est;
  g_inq = true; for (size_t i = 0; i < g_q->size(); ++i) __libc_free((*g_q)[i].p); g_q->clear(); g_qbytes = 0; g_inq = false;
}
void sched_pause(int d) { t_pause += d; }
int sched_tid() { return t_tid; }
int sched_active() { return mine(); }
void sched_log(const char* ev, const void* obj, long a, long b, long c) { if (mine()) { SchedEvent e = {t_tid, ev, obj, a, b, c}; g_trace->push_back(e); } }
long sched_steps() { return g_steps; }
long sched_switches() { return g_switches; }
void sched_point() { if (mine()) step(); }
const char* sched_uaf() { return g_uaf ? g_uafmsg : 0; }
uint64_t sched_hash() { return g_hash; }
__attribute__((weak)) void field3d_verif_event(const char* ev, const void* obj, long a, long b, long c) { sched_log(ev, obj, a, b, c); }
// ------------------------------------------------------------------ pthread
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!r_lock) initReal();
  if (!mine()) return r_lock(m);
  step(false, m);
  for (;;) { int r = r_trylock(m); if (r != EBUSY) return r; blockOn(BLK_MUTEX, m); }
}
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!r_trylock) initReal(); if (mine()) step(false, m); return r_trylock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!r_unlock) initReal();
  int r = r_unlock(m);
  if (g_active) for (int i = 0; i < g_nth; ++i) if (g_th[i].st == BLK_MUTEX && g_th[i].on == m) g_th[i].st = RUN;
  if (mine()) step(false, m);
  return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!r_cwait) initReal();
  if (!mine()) return r_cwait(c, m);
  step();
  g_th[t_tid].timed = false; g_th[t_tid].st = BLK_COND; g_th[t_tid].on = c;
  r_unlock(m); for (int i = 0; i < g_nth; ++i) if (g_th[i].st == BLK_MUTEX && g_th[i].on == m) g_th[i].st = RUN;
  blockOn(g_th[t_tid].st, c);
  for (;;) { int r = r_trylock(m); if (r != EBUSY) return r; blockOn(BLK_MUTEX, m); }
}
static int timedwait(pthread_cond_t* c, pthread_mutex_t* m) {
  step();
  Th& t = g_th[t_tid]; t.timed = true; t.timedOut = false; t.st = BLK_COND; t.on = c; t.prio = --g_low;
  r_unlock(m); for (int i = 0; i < g_nth; ++i) if (g_th[i].st == BLK_MUTEX && g_th[i].on == m) g_th[i].st = RUN;
  blockOn(BLK_COND, c);
  bool to = t.timedOut; t.timed = false;
  for (;;) { int r = r_trylock(m); if (r != EBUSY) break; blockOn(BLK_MUTEX, m); }
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (!r_ctwait) initReal(); if (!mine()) return r_ctwait(c, m, ts); return timedwait(c, m); }
int pthread_cond_signal(pthread_cond_t* c) {
  if (!r_csig) initReal();
  if (!mine()) { return r_csig(c); }
  int w[MAXT], n = 0; for (int i = 0; i < g_nth; ++i) if (g_th[i].st == BLK_COND && g_th[i].on == c) w[n++] = i;
  if (n) g_th[w[rnd() % n]].st = RUN;
  r_csig(c); step(); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!r_cbc) initReal();
  if (g_active) for (int i = 0; i < g_nth; ++i) if (g_th[i].st == BLK_COND && g_th[i].on == c) g_th[i].st = RUN;
  r_cbc(c); if (mine()) step(); return 0;
}
int pthread_create(pthread_t* p, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  if (!r_create) initReal();
  if (!mine()) return r_create(p, a, f, arg);
  if (g_nth >= MAXT) die("too many threads", 73);
  int id = g_nth; Th& t = g_th[id]; memset(&t, 0, sizeof t); t.st = RUN; t.prio = 1000 + rnd() % 1000; 
  Start* s = (Start*)malloc(sizeof(Start)); s->f = f; s->arg = arg; s->tid = id; s->gen = g_gen;
  int r = r_create(p, a, tramp, s);
  if (r == 0) { t.pt = *p; ++g_nth; step(); } else free(s);
  return r;
}
int pthread_join(pthread_t p, void** v) {
  if (!r_join) initReal();
  if (mine()) for (int i = g_nth - 1; i >= 0; --i) if (i != t_tid && pthread_equal(g_th[i].pt, p)) {
    step(); while (g_th[i].st != DONE) { g_th[t_tid].joinOn = i; blockOn(BLK_JOIN, 0); } break; }
  return r_join(p, v);
}
int usleep(useconds_t u) { if (!r_usleep) initReal(); if (mine()) { step(true); return 0; } return r_usleep(u); }
int nanosleep(const timespec* a, timespec* b) { if (!r_nanosleep) initReal(); if (mine()) { step(true); return 0; } return r_nanosleep(a, b); }
int clock_nanosleep(clockid_t, int, const timespec* a, timespec* b) { if (mine()) { step(true); return 0; } return r_nanosleep(a, b) ? errno : 0; }
// initialisation of function-local statics: waiting for another thread's is a wait the scheduler has to see
int __cxa_guard_acquire(uint64_t* g) {
  unsigned char* b = (unsigned char*)g;
  for (;;) {
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
    unsigned char z = 0; if (__atomic_compare_exchange_n(b + 1, &z, 1, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) { if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) { __atomic_store_n(b + 1, 0, __ATOMIC_RELEASE); return 0; } return 1; }
    if (mine()) step(true); else r_yield ? r_yield() : 0;
  }
}
void __cxa_guard_release(uint64_t* g) { unsigned char* b = (unsigned char*)g; __atomic_store_n(b, 1, __ATOMIC_RELEASE); __atomic_store_n(b + 1, 0, __ATOMIC_RELEASE); }
void __cxa_guard_abort(uint64_t* g) { __atomic_store_n((unsigned char*)g + 1, 0, __ATOMIC_RELEASE); }
int sched_yield() { if (!r_yield) initReal(); if (mine()) { step(true); return 0; } return r_yield(); }
// ------------------------------------------------------------------ freed memory
size_t malloc_usable_size(void*);
void free(void* p) {
  if (!p) return;
  if (g_inq || !mine() || g_qbytes > (64u << 20) || !g_q || g_q->size() >= (1 << 16) - 1) { __libc_free(p); return; }
  size_t n = malloc_usable_size(p); 
  if (freed((uintptr_t)p >> 3)) { if (!g_uaf) { g_uaf = true; snprintf(g_uafmsg, sizeof g_uafmsg, "memory freed twice by thread %d", t_tid); } return; }
  if (n > 65536) { __libc_free(p); return; }
  memset(p, 0xDB, n);
  for (uintptr_t g = (uintptr_t)p >> 3; g < ((uintptr_t)p + n) >> 3; ++g)
    for (size_t i = hsh(g) & (FRN - 1), k = 0; k < 16; ++k, i = (i + 1) & (FRN - 1)) if (g_fr[i].gen != (uint32_t)g_gen) { g_fr[i].a = g; g_fr[i].gen = g_gen; break; }
  g_qbytes += n; Q q = {p, n}; g_q->push_back(q);
}
// ------------------------------------------------------------------ instrumentation callbacks
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { access(p, PC, false); } void __tsan_write##n(void* p) { access(p, PC, true); } \
  void __tsan_unaligned_read##n(void* p) { access(p, PC, false); } void __tsan_unaligned_write##n(void* p) { access(p, PC, true); } \
  void __tsan_read_write##n(void* p) { access(p, PC, true); } void __tsan_unaligned_read_write##n(void* p) { access(p, PC, true); } \
  void __tsan_volatile_read##n(void* p) { access(p, PC, false); } void __tsan_volatile_write##n(void* p) { access(p, PC, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t) { access(p, PC, false); } void __tsan_write_range(void* p, size_t) { access(p, PC, true); }
void __tsan_vptr_update(void** p, void*) { access(p, PC, true); } void __tsan_vptr_read(void** p) { access(p, PC, false); }
#define AT(N, T) \
  T __tsan_atomic##N##_load(const volatile T* a, int) { access((void*)a, PC, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##N##_store(volatile T* a, T v, int) { access((void*)a, PC, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { access((void*)a, PC, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { access((void*)a, PC, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { access((void*)a, PC, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { access((void*)a, PC, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { access((void*)a, PC, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { access((void*)a, PC, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int) { access((void*)a, PC, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { access((void*)a, PC, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { access((void*)a, PC, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int) { access((void*)a, PC, true); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
