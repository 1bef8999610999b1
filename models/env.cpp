#include "env.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <stdarg.h>
#include <fcntl.h>
#include <time.h>
#include <semaphore.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <thread>
#include <memory>
#include <exception>
#include <mutex>
struct StateLike { virtual ~StateLike() {} virtual void _M_run() = 0; };   // layout of std::thread::_State
Env env; extern "C" { EnvAlloc env_alloc = {0, 0, 0}; }
namespace {
void hbA(const void* p) { if (env.race) vs_hb_acq(p); } void hbR(const void* p) { if (env.race) vs_hb_rel(p); }
enum { T_FREE, T_READY, T_BLOCKED, T_DONE, T_DEAD };
struct Thr { int st; const void* addr; int64_t deadline; bool timedOut; int proc; void (*fn)(void*); void* arg; StateLike* body; };
const int MAXT = 64; Thr T[MAXT]; int nT = 0; int cur = 0;
struct SemRec { int value; int refs; int procRefs[4]; bool linked; int init; int holder; };
const int MAXS = 64; struct SemName { char name[264]; SemRec* r; }; SemName SN[MAXS]; int nSN = 0; SemRec* SR[MAXS]; int nSR = 0;
struct ShmRec { uint8_t* mem; int64_t size; bool linked; int maps, fds; };
const int MAXM = 64; struct ShmName { char name[264]; ShmRec* r; }; ShmName MN[MAXM]; int nMN = 0;
struct Fd { bool open; ShmRec* r; int proc; }; const int MAXFD = 64; Fd FD[MAXFD];
struct Map { bool used; uint8_t* p; int64_t len; ShmRec* r; int proc; }; Map MP[MAXFD];
const int FD0 = 1000;
bool dead[8];
void ensure() { if (!nT) { nT = 1; T[0].st = T_READY; T[0].deadline = -1; if (vs_param("race", 0)) env_race(true); } }
void go(int t) { if (t == cur) return; cur = t; env.switches++; vs_switch(t); }
bool ready(int t) { return T[t].st == T_READY && !(T[t].proc > 0 && dead[T[t].proc]); }
void advance() {
  int64_t m = -1; for (int i = 0; i < nT; i++) if (T[i].st == T_BLOCKED && T[i].deadline >= 0 && !dead[T[i].proc]) if (m < 0 || T[i].deadline < m) m = T[i].deadline;
  if (m < 0) vs_fail("deadlock: every thread is blocked forever");
  if (m > env.now) env.now = m;
  if (env.now > env.maxNow) vs_fail("hang: a wait never ended within the time bound");
  for (int i = 0; i < nT; i++) if (T[i].st == T_BLOCKED && T[i].deadline >= 0 && T[i].deadline <= env.now && !dead[T[i].proc]) { T[i].st = T_READY; T[i].timedOut = true; T[i].deadline = -1; }
}
// pick another thread; the current one continues only when it is ready and nobody else is
void resched() {
  for (;;) {
    int cand[MAXT], n = 0; for (int k = 1; k <= nT; k++) { int i = (cur + k) % nT; if (ready(i)) cand[n++] = i; }
    if (!n) { advance(); continue; }
    int pick = 0; if (n > 1 && env.switchBudget > 0 && !env.noPreempt) { pick = (int)vs_choose(n, "next"); if (pick) env.switchBudget--; }
    go(cand[pick]); return;
  }
}
bool block(const void* addr, int64_t deadline) { // true when the wait timed out
  Thr& t = T[cur]; t.st = T_BLOCKED; t.addr = addr; t.deadline = (int64_t)vs_unique((uint64_t)deadline); t.timedOut = false; resched(); bool r = T[cur].timedOut; T[cur].timedOut = false; T[cur].addr = nullptr; return r; }
void wake(const void* addr) { for (int i = 0; i < nT; i++) if (T[i].st == T_BLOCKED && T[i].addr == addr && addr) { T[i].st = T_READY; T[i].deadline = -1; T[i].timedOut = false; } }
void killProc(int p);
void preempt(int kind) {
  ensure(); if (env.noPreempt) return;
  if (env.crashBudget > 0 && (env.crashMask & kind) && T[cur].proc == env.crashProc) { if (vs_choose(2, "crash")) { env.crashBudget--; killProc(env.crashProc); resched(); } }
  if (!(env.preemptMask & kind) || env.preemptBudget <= 0) return;
  int cand[MAXT], n = 0; for (int k = 1; k < nT; k++) { int i = (cur + k) % nT; if (ready(i)) cand[n++] = i; }
  bool st = env.stallBudget > 0; if (!n && !st) return;
  int c = (int)vs_choose(1 + n + (st ? 1 : 0), "sched"); if (!c) return; env.preemptBudget--;
  if (c <= n) { go(cand[c - 1]); return; }
  env.stallBudget--; block(nullptr, env.now + env.stallMs * 1000000);
}
bool fault(int kind) { if (!(env.faultMask & kind) || env.faultBudget <= 0) return false; if (!vs_choose(2, "fault")) return false; env.faultBudget--; env.faultsUsed++; return true; }
// destructors of thread_local objects, run by the thread they belong to when it ends
struct TlsDtor { void (*fn)(void*); void* obj; TlsDtor* next; }; TlsDtor* tlsDtors[MAXT];
void runTlsDtors() { while (tlsDtors[cur]) { TlsDtor* d = tlsDtors[cur]; tlsDtors[cur] = d->next; void (*f)(void*) = d->fn; void* o = d->obj; vs_shmfree(d); f(o); } }
void trampoline(void* p) { Thr* t = (Thr*)p; hbA(t); if (t->body) { StateLike* b = t->body; b->_M_run(); delete b; } else t->fn(t->arg);
  runTlsDtors(); ensure(); hbR(t); t->st = T_DONE; wake(t); int n = -1; for (;;) { for (int k = 1; k <= nT; k++) { int i = (cur + k) % nT; if (ready(i)) { n = i; break; } } if (n >= 0) break; advance(); }
  cur = n; vs_thread_end(n); }
int spawn(StateLike* body, void (*fn)(void*), void* arg) {
  ensure(); if (nT >= MAXT) vs_fail("model: too many threads"); int id = nT; Thr& t = T[id]; t.body = body; t.fn = fn; t.arg = arg; t.proc = T[cur].proc; t.deadline = -1; t.addr = nullptr; t.timedOut = false; t.st = T_READY;
  hbR(&t); int v = vs_thread_new(trampoline, &t); if (v != id) vs_fail("model: thread numbering"); nT++; preempt(P_THR); return id; }
const char* norm(const char* n) { while (*n == '/') n++; return n; }
bool badName(const char* n, size_t max) { size_t l = strlen(n); if (l == 0 || l >= max) return true; for (size_t i = 0; i < l; i++) if (n[i] == '/') return true; return false; }
SemName* findSem(const char* n) { for (int i = 0; i < nSN; i++) if (SN[i].r && SN[i].r->linked && strcmp(SN[i].name, n) == 0) return &SN[i]; return nullptr; }
ShmName* findShm(const char* n) { for (int i = 0; i < nMN; i++) if (MN[i].r && MN[i].r->linked && strcmp(MN[i].name, n) == 0) return &MN[i]; return nullptr; }
bool endsWith(const char* s, const char* e) { size_t a = strlen(s), b = strlen(e); return a >= b && strcmp(s + a - b, e) == 0; }
SemName* newSem(const char* n, int value) { if (nSN >= MAXS || strlen(n) >= 264) vs_fail("model: too many semaphores"); SemName& s = SN[nSN++]; strcpy(s.name, n); s.r = (SemRec*)vs_shmalloc(sizeof(SemRec), "semaphore"); memset(s.r, 0, sizeof(SemRec)); s.r->value = value; s.r->init = value; s.r->linked = true; s.r->holder = -1; return &s; }
ShmName* newShm(const char* n) { if (nMN >= MAXM || strlen(n) >= 264) vs_fail("model: too many shm objects"); ShmName& s = MN[nMN++]; strcpy(s.name, n); s.r = (ShmRec*)vs_shmalloc(sizeof(ShmRec), "shmrec"); memset(s.r, 0, sizeof(ShmRec)); s.r->linked = true; return &s; }
void dropMap(int i) { Map& m = MP[i]; m.used = false; m.r->maps--; env.maps--; }
void killProc(int p) {
  dead[p] = true; env.crashed = true;
  for (int i = 0; i < MAXFD; i++) if (FD[i].open && FD[i].proc == p) { FD[i].open = false; FD[i].r->fds--; env.fds--; }
  for (int i = 0; i < MAXFD; i++) if (MP[i].used && MP[i].proc == p) dropMap(i);
  for (int i = 0; i < nSN; i++) if (SN[i].r && SN[i].r->procRefs[p & 3]) { SN[i].r->refs -= SN[i].r->procRefs[p & 3]; env.sems -= SN[i].r->procRefs[p & 3]; SN[i].r->procRefs[p & 3] = 0; }
}
SemRec* semOf(sem_t* s) { for (int i = 0; i < nSN; i++) if ((void*)SN[i].r == (void*)s) { if (SN[i].r->refs <= 0) vs_fail("semaphore used after sem_close"); return SN[i].r; } if (!vs_valid(s, sizeof(SemRec))) vs_fail("invalid semaphore handle"); vs_fail("invalid semaphore handle"); }
int64_t wallNs() { return env.wallBase + env.now; }
}  // namespace

extern "C" void __wrap_srand(unsigned);
void env_new_rand() { __wrap_srand(12345); }
int env_self() { ensure(); return cur; }
int env_threads_alive() { int n = 0; for (int i = 0; i < nT; i++) if (T[i].st == T_READY || T[i].st == T_BLOCKED) n++; return n; }
int env_sem_value(const char* n) { auto* s = findSem(norm(n)); return s ? s->r->value : -1; }
int env_sem_holder_proc(const char* n) { auto* s = findSem(norm(n)); return s && s->r->value == 0 && s->r->holder >= 0 ? T[s->r->holder].proc : -1; }
bool env_shm_exists(const char* n) { return findShm(norm(n)) != nullptr; }
int64_t env_shm_size(const char* n) { auto* s = findShm(norm(n)); return s ? s->r->size : -1; }
uint8_t* env_shm_data(const char* n) { auto* s = findShm(norm(n)); return s ? s->r->mem : nullptr; }
void env_shm_place(const char* n, void* mem, int64_t size) { auto* s = findShm(norm(n)); if (!s) s = newShm(norm(n)); s->r->mem = (uint8_t*)mem; s->r->size = size; }
void env_sem_place(const char* n, int v) { auto* s = findSem(norm(n)); if (!s) s = newSem(norm(n), v); s->r->value = v; }
int env_sem_named() { int n = 0; for (int i = 0; i < nSN; i++) if (SN[i].r && SN[i].r->linked) n++; return n; }
int env_shm_named() { int n = 0; for (int i = 0; i < nMN; i++) if (MN[i].r && MN[i].r->linked) n++; return n; }
void env_sleep_ms(int64_t ms) { ensure(); block(nullptr, env.now + ms * 1000000); if (env.race) vs_hb_all(); }
void env_race(bool on) { env.race = on; vs_hb_on(on); }
void env_quiesce(int64_t ms) { env_sleep_ms(ms); }
void env_yield() { ensure(); resched(); }
void env_set_proc(int p) { ensure(); T[cur].proc = p; }
void env_crash(int p) { ensure(); killProc(p); if (T[cur].proc == p) resched(); }
bool env_proc_dead(int p) { return dead[p]; }
int env_spawn(void (*fn)(void*), void* arg) { return spawn(nullptr, fn, arg); }
bool env_done(int t) { return T[t].st == T_DONE; }
void env_join(int t) { while (T[t].st != T_DONE) block(&T[t], -1); hbA(&T[t]); }

extern "C" {
int __wrap___cxa_thread_atexit(void (*f)(void*), void* o, void*) { ensure(); TlsDtor* d = (TlsDtor*)vs_shmalloc(sizeof(TlsDtor), "tls dtor"); d->fn = f; d->obj = o; d->next = tlsDtors[cur]; tlsDtors[cur] = d; return 0; }
// ---- std::thread
void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(std::thread* t, StateLike** st, void (*)()) {
  if (fault(F_THREAD)) std::__throw_system_error(EAGAIN);
  int id = spawn(*st, nullptr, nullptr); *st = nullptr; uint64_t v = (uint64_t)id + 1; memcpy((void*)t, &v, 8); }
void __wrap__ZNSt6thread4joinEv(std::thread* t) { uint64_t v; memcpy(&v, (void*)t, 8); if (!v) vs_fail("join of a thread that is not joinable"); if ((int)v - 1 == cur) vs_fail("thread joins itself"); preempt(P_THR); env_join((int)v - 1); v = 0; memcpy((void*)t, &v, 8); }
void __wrap__ZNSt6thread6detachEv(std::thread* t) { uint64_t v = 0; memcpy((void*)t, &v, 8); }
unsigned __wrap__ZNSt6thread20hardware_concurrencyEv() { return 4; }
pthread_t __wrap_pthread_self() { ensure(); return (pthread_t)(cur + 1); }
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void)) { while (*o == 1) block(o, -1); if (*o == 2) { hbA(o); return 0; } *o = 1; env.noPreempt++;
  try { f(); } catch (...) { env.noPreempt--; *o = 0; wake(o); throw; } env.noPreempt--; *o = 2; hbR(o); wake(o); return 0; }
// ---- mutex: owner + 1 in the first word, recursion count of recursive mutexes in the second, kind in the fifth
static void mtxTake(int* w) { while (*w) block(w, -1); *w = cur + 1; hbA(w); }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { preempt(P_MTX); int* w = (int*)m; if (*w == cur + 1) { if (w[4] == PTHREAD_MUTEX_RECURSIVE) { w[1]++; return 0; } if (w[4] == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; vs_fail("self-deadlock: mutex locked twice by one thread"); } mtxTake(w); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { preempt(P_MTX); int* w = (int*)m; if (*w == cur + 1 && w[4] == PTHREAD_MUTEX_RECURSIVE) { w[1]++; return 0; } if (*w) return EBUSY; *w = cur + 1; hbA(w); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { ensure(); int* w = (int*)m; if (*w != cur + 1) vs_fail("mutex unlocked by a thread that does not hold it"); if (w[1]) { w[1]--; return 0; } hbR(w); *w = 0; wake(m); preempt(P_MTX); return 0; }
int __wrap_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) {
  preempt(P_MTX); int* w = (int*)m; if (*w == cur + 1) { if (w[4] == PTHREAD_MUTEX_RECURSIVE) { w[1]++; return 0; } return EDEADLK; }
  int64_t d = ts->tv_sec > 8000000000ll ? -1 : (int64_t)ts->tv_sec * 1000000000 + ts->tv_nsec; if (d >= 0 && clk == CLOCK_REALTIME) d -= env.wallBase;
  while (*w) { if (d >= 0 && d <= env.now) return ETIMEDOUT; if (block(w, d < 0 && ts->tv_sec <= 8000000000ll ? 0 : d) && *w) return ETIMEDOUT; } *w = cur + 1; hbA(w); return 0; }
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { return __wrap_pthread_mutex_clocklock(m, CLOCK_REALTIME, ts); }
// ---- reader-writer locks: writer + 1 in the first word, number of readers in the second
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* l) { preempt(P_MTX); int* w = (int*)l; if (*w == cur + 1) return EDEADLK; while (*w || w[1]) block(w, -1); *w = cur + 1; hbA(w); return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* l) { preempt(P_MTX); int* w = (int*)l; if (*w == cur + 1) return EDEADLK; while (*w) block(w, -1); w[1]++; hbA(w); return 0; }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* l) { preempt(P_MTX); int* w = (int*)l; if (*w || w[1]) return EBUSY; *w = cur + 1; hbA(w); return 0; }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { preempt(P_MTX); int* w = (int*)l; if (*w) return EBUSY; w[1]++; hbA(w); return 0; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* l) { ensure(); int* w = (int*)l; hbR(w); if (*w == cur + 1) *w = 0; else if (w[1] > 0) w[1]--; else vs_fail("reader-writer lock unlocked without being held"); wake(w); preempt(P_MTX); return 0; }
pid_t __wrap_getpid() { ensure(); return 1000 + T[cur].proc; }
// ---- condition variables
static void hookTimedOut(const struct timespec* ts);
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
  int* w = (int*)m; if (*w != cur + 1) vs_fail("condition wait without holding the mutex"); hbR(w); *w = 0; wake(m); bool to = false; if (fault(F_SPURIOUS)) env_yield(); else to = block(c, deadline); while (*w) block(m, -1); *w = cur + 1; hbA(w); if (to) env.timedOutWaits++; return to ? ETIMEDOUT : 0; }
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { preempt(P_COND); return condWait(c, m, -1); }
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) {
  preempt(P_COND); if (env.hookWait) { env.hookCount++; env.hookSec = ts->tv_sec; env.hookNsec = ts->tv_nsec; if (!(ts->tv_nsec >= 0 && ts->tv_nsec < 1000000000)) { env.einval++; return EINVAL; } hookTimedOut(ts); env.timedOutWaits++; return ETIMEDOUT; }
  if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) { env.einval++; return EINVAL; }
  int64_t d; if (ts->tv_sec > 8000000000ll) d = -1; else { d = (int64_t)ts->tv_sec * 1000000000 + ts->tv_nsec; if (clk == CLOCK_REALTIME) d -= env.wallBase; if (d < 0) d = 0; }
  if (d >= 0 && d <= env.now) { int* w = (int*)m; if (*w != cur + 1) vs_fail("condition wait without holding the mutex"); hbR(w); *w = 0; wake(m); env_yield(); while (*w) block(m, -1); *w = cur + 1; hbA(w); env.timedOutWaits++; return ETIMEDOUT; }
  return condWait(c, m, d); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return __wrap_pthread_cond_clockwait(c, m, CLOCK_REALTIME, ts); }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { preempt(P_COND); wake(c); return 0; }
int __wrap_pthread_cond_signal(pthread_cond_t* c) { preempt(P_COND); for (int k = 1; k <= nT; k++) { int i = (cur + k) % nT; if (T[i].st == T_BLOCKED && T[i].addr == c) { T[i].st = T_READY; T[i].deadline = -1; T[i].timedOut = false; break; } } return 0; }
void __wrap__ZNSt18condition_variable10notify_allEv(void* c) { __wrap_pthread_cond_broadcast((pthread_cond_t*)c); }
void __wrap__ZNSt18condition_variable10notify_oneEv(void* c) { __wrap_pthread_cond_signal((pthread_cond_t*)c); }
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* c, std::unique_lock<std::mutex>* l) { __wrap_pthread_cond_wait((pthread_cond_t*)c, (pthread_mutex_t*)l->mutex()->native_handle()); }
// ---- std::future
static bool futex(void* addr, unsigned val, int64_t deadline) { preempt(P_COND); unsigned* a = (unsigned*)addr; while ((*a & 0x7fffffff) == (val & 0x7fffffff)) { if (deadline >= 0 && deadline <= env.now) return false; if (block(a, deadline)) return (*a & 0x7fffffff) != (val & 0x7fffffff); } return true; }
static int64_t sat(int64_t s, int64_t ns) { if (s > 8000000000ll) return -1; return s * 1000000000 + ns; }
bool __wrap__ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void*, unsigned* a, unsigned v, bool to, int64_t s, int64_t ns) { int64_t d = -1; if (to) { d = sat(s, ns); if (d >= 0) { d -= env.wallBase; if (d < 0) d = 0; } } return futex(a, v, d); }
bool __wrap__ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void*, unsigned* a, unsigned v, bool to, int64_t s, int64_t ns) { int64_t d = to ? sat(s, ns) : -1; if (to && d < 0 && s < 0) d = 0; return futex(a, v, d); }
void __wrap__ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(unsigned* a) { wake(a); }
// ---- clocks
static int64_t gSec, gNs; static bool gHave;
static unsigned gRand = 12345, gDev = 99;
static void wallClock(int64_t& s, int64_t& ns) {
  if (env.symClock) { if (!gHave) { gHave = true; gSec = (int64_t)vs_range("clock_sec", 0, 4102444800ull); gNs = (int64_t)vs_range("clock_nsec", 0, 999999999); } s = gSec; ns = gNs; return; }
  int64_t t = wallNs(); s = t / 1000000000; ns = t % 1000000000; }
static void hookTimedOut(const struct timespec* ts) { // the wait lasted until its deadline
  int64_t s, n; wallClock(s, n); if (ts->tv_sec > s || (ts->tv_sec == s && ts->tv_nsec > n)) { gSec = ts->tv_sec; gNs = ts->tv_nsec; } }
int __wrap_clock_gettime(clockid_t c, struct timespec* ts) { preempt(P_CLOCK); if (c == CLOCK_MONOTONIC && !env.symClock) { ts->tv_sec = env.now / 1000000000; ts->tv_nsec = env.now % 1000000000; return 0; } int64_t s, n; wallClock(s, n); ts->tv_sec = s; ts->tv_nsec = n; return 0; }
int __wrap_gettimeofday(struct timeval* tv, void*) { preempt(P_CLOCK); int64_t s, n; wallClock(s, n); tv->tv_sec = s; tv->tv_usec = env.symClock ? (int64_t)((uint64_t)n / 1000) : n / 1000; return 0; }
time_t __wrap_time(time_t* t) { int64_t s, n; wallClock(s, n); if (t) *t = s; return s; }
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { ensure(); if (env.symClock) { int64_t s, n; wallClock(s, n); return s * 1000000000 + n; } return env.now; }
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { ensure(); if (env.symClock) { int64_t s, n; wallClock(s, n); return s * 1000000000 + n; } return wallNs(); }
int __wrap_nanosleep(const struct timespec* a, struct timespec*) { ensure(); block(nullptr, env.now + a->tv_sec * 1000000000ll + a->tv_nsec); return 0; }
int __wrap_clock_nanosleep(clockid_t, int flags, const struct timespec* a, struct timespec*) { ensure(); int64_t d = a->tv_sec * 1000000000ll + a->tv_nsec; block(nullptr, flags ? d : env.now + d); return 0; }
int __wrap_usleep(unsigned us) { ensure(); block(nullptr, env.now + us * 1000ll); return 0; }
void __wrap__ZNSt11this_thread11__sleep_forENSt6chrono8durationIlSt5ratioILl1ELl1EEEENS1_IlS2_ILl1ELl1000000000EEEE(int64_t s, int64_t ns) { ensure(); block(nullptr, env.now + s * 1000000000 + ns); }
int __wrap_sched_yield() { env_yield(); return 0; }
int __wrap_rand() { gRand = gRand * 1103515245u + 12345u; return (int)(gRand >> 1); }      // the same sequence in every process
void __wrap_srand(unsigned s) { gRand = s; }
void __wrap__ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, const std::string&) {}
void __wrap__ZNSt13random_device7_M_finiEv(void*) {}
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void*) { if (env.symRand) { static unsigned rec[16]; int i = env.randIdx++; if (env.randUniform) { static unsigned base, other; if (i == 0) { if (env.randOther) { unsigned d = (unsigned)vs_in("random", 32); vs_assume(d != 0); other = base ^ d; } else base = (unsigned)vs_in("random", 32); } return env.randOther ? other : base; } unsigned v = (unsigned)vs_in("random", 32); if (i >= 16) return v; if (env.randOther) { vs_assume(v != 0); return rec[i] ^ v; } return rec[i] = v; } gDev = gDev * 1664525u + 1013904223u; return gDev ^ (gDev >> 15); }
ssize_t __wrap_getrandom(void* p, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = (uint8_t)(env.symRand ? vs_in("random", 8) : (gDev = gDev * 1664525u + 1013904223u) >> 24); return (ssize_t)n; }
// ---- named semaphores
sem_t* __wrap_sem_open(const char* name, int fl, ...) {
  preempt(P_SEM); const char* n = norm(name); if (badName(n, 252)) { errno = EINVAL; return SEM_FAILED; }
  if (fault(F_SEMOPEN)) { errno = EMFILE; return SEM_FAILED; }
  SemName* s = findSem(n);
  if (!s) { if (!(fl & O_CREAT)) { errno = ENOENT; return SEM_FAILED; } va_list ap; va_start(ap, fl); (void)va_arg(ap, unsigned); unsigned v = va_arg(ap, unsigned); va_end(ap); if (v > 0x7fffffffu) { errno = EINVAL; return SEM_FAILED; } s = newSem(n, (int)v); }
  else if ((fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return SEM_FAILED; }
  s->r->refs++; s->r->procRefs[T[cur].proc & 3]++; env.sems++; return (sem_t*)s->r; }
int __wrap_sem_close(sem_t* h) { preempt(P_SEM); SemRec* r = semOf(h); r->refs--; if (r->procRefs[T[cur].proc & 3] > 0) r->procRefs[T[cur].proc & 3]--; env.sems--; return 0; }
int __wrap_sem_unlink(const char* name) { preempt(P_SEM); SemName* s = findSem(norm(name)); if (!s) { errno = ENOENT; return -1; } s->r->linked = false; return 0; }
static int semWait(sem_t* h, int64_t deadline, bool poll) {
  SemRec* r = semOf(h); if (r->value <= 0 && !poll && fault(F_SEMWAIT)) { errno = EINTR; return -1; }
  while (r->value <= 0) { if (poll) { errno = EAGAIN; return -1; } if (deadline >= 0 && deadline <= env.now) { env.timedOutWaits++; errno = ETIMEDOUT; return -1; } if (block(r, deadline) && r->value <= 0) { env.timedOutWaits++; errno = ETIMEDOUT; return -1; } r = semOf(h); }
  r->value--; r->holder = cur; hbA(r); return 0; }
int __wrap_sem_wait(sem_t* h) { preempt(P_SEM); if (env.hookWait) { env.hookCount++; env.hookWaitForever = true; } return semWait(h, -1, false); }
int __wrap_sem_trywait(sem_t* h) { preempt(P_SEM); return semWait(h, -1, true); }
int __wrap_sem_clockwait(sem_t* h, clockid_t clk, const struct timespec* ts) {
  preempt(P_SEM); if (env.hookWait) { env.hookCount++; env.hookSec = ts->tv_sec; env.hookNsec = ts->tv_nsec; }
  if (!(ts->tv_nsec >= 0 && ts->tv_nsec < 1000000000)) { env.einval++; errno = EINVAL; return -1; }
  if (env.hookWait && semOf(h)->value <= 0) { if (env.faultBudget > 0 && fault(F_SEMWAIT)) { errno = EINTR; return -1; } hookTimedOut(ts); env.timedOutWaits++; errno = ETIMEDOUT; return -1; }
  if (env.hookWait) return semWait(h, -1, true);
  int64_t d; if (ts->tv_sec > 8000000000ll) d = -1; else { d = (int64_t)ts->tv_sec * 1000000000 + ts->tv_nsec; if (clk == CLOCK_REALTIME) d -= env.wallBase; if (d < 0) d = 0; } return semWait(h, d, false); }
int __wrap_sem_timedwait(sem_t* h, const struct timespec* ts) { return __wrap_sem_clockwait(h, CLOCK_REALTIME, ts); }
int __wrap_sem_post(sem_t* h) { preempt(P_SEM); SemRec* r = semOf(h); if (r->value == 0x7fffffff) { errno = EOVERFLOW; return -1; } hbR(r); r->value++; r->holder = -1;
  if (env.checkBinary) for (int i = 0; i < nSN; i++) if (SN[i].r == r && endsWith(SN[i].name, "_rwlock") && r->value > 1) vs_fail("lock released without being held");
  wake(r); preempt(P_SEM); return 0; }
int __wrap_sem_getvalue(sem_t* h, int* v) { *v = semOf(h)->value; return 0; }
// ---- shared memory
int __wrap_shm_open(const char* name, int fl, mode_t) {
  preempt(P_SHM); const char* n = norm(name); if (badName(n, 256)) { errno = EINVAL; return -1; } if (fault(F_SHMOPEN)) { errno = EMFILE; return -1; }
  ShmName* s = findShm(n); if (!s) { if (!(fl & O_CREAT)) { errno = ENOENT; return -1; } s = newShm(n); } else if ((fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; }
  if (fl & O_TRUNC) { if (s->r->maps) vs_fail("model: O_TRUNC with live mappings"); s->r->size = 0; s->r->mem = nullptr; }
  for (int i = 0; i < MAXFD; i++) if (!FD[i].open) { FD[i].open = true; FD[i].r = s->r; FD[i].proc = T[cur].proc; s->r->fds++; env.fds++; return FD0 + i; } errno = EMFILE; return -1; }
int __wrap_shm_unlink(const char* name) { preempt(P_SHM); ShmName* s = findShm(norm(name)); if (!s) { errno = ENOENT; return -1; } s->r->linked = false; return 0; }
#ifdef VS_NATIVE
int __real_close(int); void* __real_mmap(void*, size_t, int, int, int, off_t); int __real_munmap(void*, size_t); int __real_ftruncate(int, off_t); int __real_fstat(int, struct stat*);
#else
static int __real_close(int) { errno = EBADF; return -1; } static void* __real_mmap(void*, size_t, int, int, int, off_t) { errno = EINVAL; return MAP_FAILED; } static int __real_munmap(void*, size_t) { errno = EINVAL; return -1; } static int __real_ftruncate(int, off_t) { errno = EBADF; return -1; } static int __real_fstat(int, struct stat*) { errno = EBADF; return -1; }
#endif
static Fd* fdOf(int fd) { if (fd >= FD0 && fd < FD0 + MAXFD && FD[fd - FD0].open) return &FD[fd - FD0]; return nullptr; }
int __wrap_close(int fd) { preempt(P_SHM); if (Fd* f = fdOf(fd)) { f->open = false; f->r->fds--; env.fds--; return 0; } if (fd < 0 || (fd >= FD0 && fd < FD0 + MAXFD)) { env.badClose++; errno = EBADF; return -1; } return __real_close(fd); }
int __wrap_ftruncate(int fd, off_t n) {
  preempt(P_SHM); Fd* f = fdOf(fd); if (!f) { if (fd >= FD0 || fd < 0) { errno = EBADF; return -1; } return __real_ftruncate(fd, n); }
  if (n < 0) { errno = EINVAL; return -1; } if (fault(F_FTRUNC)) { errno = ENOSPC; return -1; }
  if (vs_is_symbolic((uint64_t)n)) { if (f->r->size) { if (n == f->r->size) return 0; vs_fail("model: symbolic resize"); } f->r->mem = (uint8_t*)vs_lazy((uint64_t)n, "shm", 0); f->r->size = n; return 0; }
  if (n == f->r->size) return 0; if (n > (1ll << 26)) { errno = ENOSPC; return -1; }
  uint8_t* m = (uint8_t*)vs_shmalloc((uint64_t)n, "shm"); memset(m, 0, (size_t)n); int64_t k = n < f->r->size ? n : f->r->size; if (k > 0) memcpy(m, f->r->mem, (size_t)k);
  if (f->r->mem && !f->r->maps) vs_shmfree(f->r->mem);
  f->r->mem = m; f->r->size = n; return 0; }
int __wrap_fstat(int fd, struct stat* st) { Fd* f = fdOf(fd); if (!f) { if (fd >= FD0 || fd < 0) { errno = EBADF; return -1; } return __real_fstat(fd, st); } memset(st, 0, sizeof *st); st->st_size = f->r->size; st->st_mode = 0100666; st->st_nlink = f->r->linked ? 1 : 0; return 0; }
void* __wrap_mmap(void* a, size_t len, int prot, int flags, int fd, off_t off) {
  preempt(P_SHM); Fd* f = fdOf(fd); if (!f) { if (fd >= FD0) { errno = EBADF; return MAP_FAILED; } return __real_mmap(a, len, prot, flags, fd, off); }
  if (len == 0 || (int64_t)len < 0) { errno = EINVAL; return MAP_FAILED; } if (fault(F_MMAP)) { errno = ENOMEM; return MAP_FAILED; }
  if (off != 0 || !(flags & MAP_SHARED)) vs_fail("model: mapping is not shared from offset 0");
  uint8_t* p = f->r->mem; if (!p) { p = (uint8_t*)vs_shmalloc(0, "empty shm"); f->r->mem = p; }
  for (int i = 0; i < MAXFD; i++) if (!MP[i].used) { MP[i] = Map{true, p, (int64_t)len, f->r, T[cur].proc}; f->r->maps++; env.maps++; return p; } errno = ENOMEM; return MAP_FAILED; }
int __wrap_munmap(void* p, size_t len) {
  preempt(P_SHM); int pr = T[cur].proc, hit = -1; for (int i = 0; i < MAXFD; i++) if (MP[i].used && MP[i].p == p && (hit < 0 || (MP[i].proc == pr && MP[hit].proc != pr) || (MP[i].proc == pr && MP[hit].len != (int64_t)len && MP[i].len == (int64_t)len))) hit = i; // several mappings of one object have one address here
  if (hit < 0) { env.badUnmap++; return __real_munmap(p, len); } if (MP[hit].len != (int64_t)len) env.badUnmap++; dropMap(hit); return 0; }
}  // extern "C"

// ---- the queue operations of the code under test: every use is by the thread that holds the queue's lock
namespace { struct QName { const void* q; char n[264]; }; QName QN[MAXS]; int nQN = 0;
void qNamed(const void* q, const std::string& n) { int i = 0; while (i < nQN && QN[i].q != q) i++; if (i == MAXS || n.size() > 50) return; if (i == nQN) nQN++; QN[i].q = q; strcpy(QN[i].n, n.c_str()); }
void qUse(const void* q) { if (env.checkOwner) for (int i = 0; i < nQN; i++) if (QN[i].q == q) { char b[80]; size_t l = strlen(QN[i].n); memcpy(b, QN[i].n, l); memcpy(b + l, "_rwlock", 8); SemName* s = findSem(b); if (s && !(s->r->value == 0 && s->r->holder == cur)) vs_fail("a queue was used by a thread that does not hold its lock"); } preempt(P_MQ); }
}
extern "C" {
#define QREAL(name, ret, ...) ret __real_##name(__VA_ARGS__) __attribute__((weak)); ret __wrap_##name(__VA_ARGS__)
QREAL(_ZN6veigar12MessageQueue6createERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE, bool, void* q, const std::string& n) { qNamed(q, n); return __real__ZN6veigar12MessageQueue6createERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(q, n); }
QREAL(_ZN6veigar12MessageQueue4openERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE, bool, void* q, const std::string& n) { qNamed(q, n); return __real__ZN6veigar12MessageQueue4openERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(q, n); }
QREAL(_ZN6veigar12MessageQueue8pushBackEPKvl, bool, void* q, const void* d, int64_t n) { qUse(q); return __real__ZN6veigar12MessageQueue8pushBackEPKvl(q, d, n); }
QREAL(_ZN6veigar12MessageQueue8popFrontEPvlRl, bool, void* q, void* d, int64_t n, int64_t& w) { qUse(q); return __real__ZN6veigar12MessageQueue8popFrontEPvlRl(q, d, n, w); }
QREAL(_ZNK6veigar12MessageQueue20checkSpaceSufficientElRb, bool, void* q, int64_t n, bool& w) { qUse(q); return __real__ZNK6veigar12MessageQueue20checkSpaceSufficientElRb(q, n, w); }
QREAL(_ZNK6veigar12MessageQueue9msgNumberEv, int64_t, void* q) { qUse(q); return __real__ZNK6veigar12MessageQueue9msgNumberEv(q); }
}

// ---- instrumented builds (-fsanitize=thread): atomic operations are points where the CPU may be lost
extern "C" {
static void atm(const volatile void* p, int n, int mo, bool w) { // memory order 4 is what reference counts use
  if (mo != 4) preempt(P_ATM); if (!env.race) return; vs_hb_access(p, (uint64_t)n, w ? 3 : 2); }
static void atmAcq(const volatile void* p, int mo) { if (env.race && (mo == 1 || mo == 2 || mo >= 4)) vs_hb_acq((const void*)p); }
static void atmRel(const volatile void* p, int mo) { if (env.race && mo >= 3) vs_hb_rel((const void*)p); }
#define ATM(B, T) \
T __tsan_atomic##B##_load(const volatile T* a, int mo) { atm(a, B / 8, mo, false); T v = *a; atmAcq(a, mo); return v; } \
void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { atm(a, B / 8, mo, true); atmRel(a, mo); *a = v; } \
static void rmw##B(volatile T* a, int mo) { atm(a, B / 8, mo, true); atmAcq(a, mo); atmRel(a, mo); } \
T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { rmw##B(a, mo); T o = *a; *a = v; return o; } \
T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { rmw##B(a, mo); T o = *a; *a = (T)(o + v); return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { rmw##B(a, mo); T o = *a; *a = (T)(o - v); return o; } \
T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { rmw##B(a, mo); T o = *a; *a = (T)(o & v); return o; } \
T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { rmw##B(a, mo); T o = *a; *a = (T)(o | v); return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { rmw##B(a, mo); T o = *a; *a = (T)(o ^ v); return o; } \
T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int) { rmw##B(a, mo); T o = *a; if (o == c) *a = v; return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) { rmw##B(a, mo); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int) { rmw##B(a, mo); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }
ATM(8, uint8_t) ATM(16, uint16_t) ATM(32, uint32_t) ATM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
