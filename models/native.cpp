#include <malloc.h>
// Native replay runtime: the harness API of vs.h on top of real pthreads (one running at a time), with the
// inputs of a symbolic path read from a file.  Linked with the really compiled repository sources.
#include "vs.h"
#include "env.h"
#include "../engine/race.h"
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <exception>
#include <map>
#include <new>
#include <set>
#include <string>
#include <vector>
extern "C" void vs_main(); static void raceClear(void* p, size_t n);
extern "C" { int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*); int __real_pthread_cond_broadcast(pthread_cond_t*); void* __real_mmap(void*, size_t, int, int, int, off_t); int __real_munmap(void*, size_t); }
namespace {
std::map<std::string, uint64_t>& IN() { static auto* m = new std::map<std::string, uint64_t>; return *m; }
std::map<std::string, std::map<uint64_t, uint8_t>>& ARR() { static auto* m = new std::map<std::string, std::map<uint64_t, uint8_t>>; return *m; }
std::map<std::string, int64_t>& PAR() { static auto* m = new std::map<std::string, int64_t>; return *m; }
std::map<std::string, unsigned>& CNT() { static auto* m = new std::map<std::string, unsigned>; return *m; }
pthread_mutex_t bm = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t bc = PTHREAD_COND_INITIALIZER; volatile int baton = 0; int nth = 1; __thread int self = 0;
struct Start { int id; void (*fn)(void*); void* arg; };
void waitFor(int id) { __real_pthread_mutex_lock(&bm); while (baton != id) __real_pthread_cond_wait(&bc, &bm); __real_pthread_mutex_unlock(&bm); }
void give(int id) { __real_pthread_mutex_lock(&bm); baton = id; __real_pthread_cond_broadcast(&bc); __real_pthread_mutex_unlock(&bm); }
[[noreturn]] void fin(int code) { fflush(stdout); fflush(stderr); _exit(code); }
void* threadMain(void* p) { Start s = *(Start*)p; self = s.id; waitFor(s.id); s.fn(s.arg); return nullptr; }
int64_t live = 0, liveB = 0; struct Keep { int64_t was = live, wasB = liveB; ~Keep() { live = was; liveB = wasB; } }; // the runtime's own bookkeeping is not counted
std::string key(const char* n) { unsigned k = CNT()[n]++; std::string s(n); for (char& c : s) if (c == ' ') c = '_'; return k ? s + "#" + std::to_string(k) : s; }
void onTerm() { const char* t = "?"; std::string w; if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (std::exception& x) { t = "std::exception"; w = x.what(); } catch (...) { t = "other"; } } printf("VS_CRASH terminate (%s: %s)\n", t, w.c_str()); fin(43); }
void onSig(int s) { char b[64]; int n = snprintf(b, sizeof b, "VS_CRASH signal %d\n", s); if (write(1, b, n)) {} _exit(44); }
struct Lz { uint8_t* map; size_t len; }; std::map<void*, Lz>& LZ() { static auto* m = new std::map<void*, Lz>; return *m; }
std::map<void*, size_t>& SHM() { static auto* m = new std::map<void*, size_t>; return *m; }
}
extern "C" {
uint64_t vs_in(const char* n, unsigned bits) { Keep keep; auto it = IN().find(key(n)); uint64_t v = it == IN().end() ? 0 : it->second; return bits < 64 ? v & ((1ull << bits) - 1) : v; }
void vs_bytes(void* p, size_t n, const char* name) { for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = (uint8_t)vs_in(name, 8); }
void vs_assume_(bool c) { if (!c) { printf("VS_ASSUME\n"); fin(77); } }
void vs_assert_(bool c, const char* id) { if (!c) vs_fail(id); }
void vs_fail(const char* id) { printf("VS_FAIL %s\n", id); fin(42); }
unsigned vs_choose(unsigned n, const char* name) { if (n <= 1) return 0; unsigned v = (unsigned)vs_in(name, 8); return v < n ? v : 0; }
uint64_t vs_concrete(uint64_t v) { return v; }
uint64_t vs_unique(uint64_t v) { return v; }
bool vs_is_symbolic(uint64_t) { return false; }
void vs_reach(const char*) {}
void vs_observe(const char* n, uint64_t v) { printf("OBS %s %llu\n", n, (unsigned long long)v); }
void vs_note(const char*) {}
void vs_trace(const char* s, ...) { if (getenv("VS_TRACE")) { printf("[trace t%d] %s", self, s); va_list ap; va_start(ap, s); for (int i = 0; i < 3; i++) printf(" %lld", va_arg(ap, long long)); va_end(ap); printf("\n"); } }
int64_t vs_param(const char* n, int64_t d) { Keep keep; auto it = PAR().find(n); return it == PAR().end() ? d : it->second; }
int64_t vs_live() { return live; }
int64_t vs_live_bytes() { return liveB; }
void vs_end() { printf("VS_END\n"); fin(0); }
uint64_t vs_obj_size(const void*) { return ~0ull; }
bool vs_valid(const void*, uint64_t) { return true; }
void* vs_lazy(uint64_t size, const char* name, int mode) { Keep keep;
  std::string k = key(name); size_t pg = 4096, body = (size + pg - 1) / pg * pg; if (size > (1ull << 40)) { printf("VS_TOOBIG\n"); fin(78); }
  uint8_t* m = (uint8_t*)__real_mmap(nullptr, body + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) { printf("VS_TOOBIG\n"); fin(78); }
  if (body) mprotect(m + pg, body, PROT_READ | PROT_WRITE); uint8_t* p = m + pg + (body - size); LZ()[p] = {m, body + 2 * pg};
  if (mode == 1) for (auto& kv : ARR()[k]) if (kv.first < size) p[kv.first] = kv.second; return p; }
void vs_lazy_free(void* p) { Keep keep; auto it = LZ().find(p); if (it == LZ().end()) { printf("VS_CRASH bad unmap\n"); fin(45); } __real_munmap(it->second.map, it->second.len); LZ().erase(it); }
extern "C" void* __real_calloc(size_t, size_t); extern "C" void __real_free(void*);
void* vs_shmalloc(uint64_t n, const char*) { Keep keep; void* p = __real_calloc(1, n ? n : 1); SHM()[p] = n; raceClear(p, n); return p; }
void vs_shmfree(void* p) { Keep keep; if (LZ().count(p)) { vs_lazy_free(p); return; } SHM().erase(p); __real_free(p); }
int vs_thread_new(void (*fn)(void*), void* arg) { Keep keep; int id = nth++; pthread_t t; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED); static Start starts[256]; if (id >= 256) { printf("VS_TOOBIG\n"); fin(78); } starts[id] = Start{id, fn, arg}; if (pthread_create(&t, &a, threadMain, &starts[id])) { printf("VS_TOOBIG\n"); fin(78); } return id; }
void vs_switch(int t) { if (t == self) return; int me = self; give(t); waitFor(me); }
int vs_self() { return self; }
void vs_thread_end(int next) { give(next); for (;;) pause(); }
uint64_t vs_step() { return 0; }
}
static Race& R() { static Race* r = new Race; return *r; } static bool racing = false;
static void raceClear(void* p, size_t n) { if (!racing || !p) return; racing = false; { Keep k; R().clear((uint64_t)p, n); } racing = true; }
static void raceAcc(const volatile void* p, uint64_t n, int kind) { if (!racing || !n) return; racing = false; uint32_t b; { Keep k; b = R().access((unsigned)self, (uint64_t)p, n, kind, 1); } racing = true; if (b) vs_fail("data race"); }
extern "C" {
void vs_hb_on(int on) { racing = false; { Keep k; R().on = on; R().clock(0); } racing = on; }
void vs_hb_acq(const void* p) { if (!racing) return; racing = false; { Keep k; R().acq((unsigned)self, (uint64_t)p); } racing = true; }
void vs_hb_rel(const void* p) { if (!racing) return; racing = false; { Keep k; R().rel((unsigned)self, (uint64_t)p); } racing = true; }
void vs_hb_all() { if (!racing) return; racing = false; { Keep k; R().all((unsigned)self); } racing = true; }
void vs_hb_access(const volatile void* p, uint64_t n, int kind) { raceAcc(p, n, kind); }
#define RW(N) void __tsan_read##N(void* p) { raceAcc(p, N, 0); } void __tsan_write##N(void* p) { raceAcc(p, N, 1); } void __tsan_unaligned_read##N(void* p) { raceAcc(p, N, 0); } void __tsan_unaligned_write##N(void* p) { raceAcc(p, N, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void** p) { raceAcc(p, 8, 0); } void __tsan_vptr_update(void** p, void* v) { raceAcc(p, 8, *p != v); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { raceAcc(s, n, 0); raceAcc(d, n, 1); return memmove(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { raceAcc(s, n, 0); raceAcc(d, n, 1); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { raceAcc(d, n, 1); return memset(d, c, n); }
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
}
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
static int64_t us(void* p) { return (int64_t)malloc_usable_size(p); }
static bool refuse(size_t n) { if (env_alloc.count <= 0 || (int64_t)n < env_alloc.min) return false; if (--env_alloc.count) return false; env_alloc.failed++; return true; }
void* __wrap_malloc(size_t n) { if (refuse(n)) return nullptr; void* p = __real_malloc(n); if (p) { live++; liveB += us(p); } raceClear(p, n); return p; }
void* __wrap_calloc(size_t a, size_t b) { if (refuse(a * b)) return nullptr; void* p = __real_calloc(a, b); if (p) { live++; liveB += us(p); } raceClear(p, a * b); return p; }
void* __wrap_realloc(void* o, size_t n) { if (refuse(n)) return nullptr; int64_t b = o ? us(o) : 0; void* p = __real_realloc(o, n); if (p) { liveB += us(p) - b; if (!o) live++; } raceClear(p, n); return p; }
void __wrap_free(void* p) { if (p) { live--; liveB -= us(p); } __real_free(p); }
}
void* operator new(size_t n) { if (refuse(n)) throw std::bad_alloc(); void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); live++; liveB += us(p); raceClear(p, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) { live--; liveB -= us(p); } __real_free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (refuse(n)) return nullptr; void* p = __real_malloc(n ? n : 1); if (p) { live++; liveB += us(p); raceClear(p, n); } return p; }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }
int main(int argc, char** argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0); std::set_terminate(onTerm);
#ifndef VS_ASAN
  signal(SIGSEGV, onSig); signal(SIGBUS, onSig);
#endif
  signal(SIGABRT, onSig); signal(SIGFPE, onSig); signal(SIGILL, onSig);
  if (argc > 1) { FILE* f = fopen(argv[1], "r"); if (!f) { printf("VS_NOFILE\n"); return 79; } char kind[8], name[256];
    while (fscanf(f, "%7s %255s", kind, name) == 2) {
      if (kind[0] == 'P') { long long v; if (fscanf(f, "%lld", &v) == 1) PAR()[name] = v; }
      else if (kind[0] == 'I') { unsigned long long v; if (fscanf(f, "%llu", &v) == 1) IN()[name] = v; }
      else if (kind[0] == 'A') { unsigned n; if (fscanf(f, "%u", &n) != 1) break; for (unsigned i = 0; i < n; i++) { unsigned long long o; unsigned v; if (fscanf(f, "%llu %u", &o, &v) == 2) ARR()[name][o] = (uint8_t)v; } } }
    fclose(f); }
  vs_main(); printf("VS_END\n"); fin(0);
}
