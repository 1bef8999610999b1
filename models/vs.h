// Harness API of vsym.  The same functions exist natively (models/native.cpp) so that a counterexample or a
// sampled path can be replayed on the really compiled code.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint64_t vs_in(const char* name, unsigned bits);            // fresh symbolic input
void vs_bytes(void* p, size_t n, const char* name);
void vs_assume_(bool c);
void vs_assert_(bool c, const char* id);
[[noreturn]] void vs_fail(const char* id);
unsigned vs_choose(unsigned n, const char* name);           // symbolic choice, one path per value
uint64_t vs_concrete(uint64_t v);                           // case split on the value
uint64_t vs_unique(uint64_t v);                             // v, as a constant if the path leaves only one value
bool vs_is_symbolic(uint64_t v);
void vs_reach(const char* tag);                             // vacuity witness
void vs_observe(const char* name, uint64_t v);              // compared between symbolic and native execution
void vs_note(const char* s);
void vs_trace(const char* s, ...);
int64_t vs_param(const char* name, int64_t dflt);           // bound given on the command line
int64_t vs_live();                                          // live heap allocations
int64_t vs_live_bytes();                                    // and their bytes
[[noreturn]] void vs_end();
uint64_t vs_obj_size(const void* p);
bool vs_valid(const void* p, uint64_t n);
void* vs_lazy(uint64_t size, const char* name, int arbitrary);
void vs_lazy_free(void* p);
void* vs_shmalloc(uint64_t n, const char* name);
void vs_shmfree(void* p);
int vs_thread_new(void (*fn)(void*), void* arg);
void vs_switch(int t);
int vs_self();
[[noreturn]] void vs_thread_end(int next);
uint64_t vs_step();
void vs_hb_on(int on);                                      // race detection (instrumented builds only)
void vs_hb_acq(const void* p); void vs_hb_rel(const void* p); void vs_hb_all(); void vs_hb_access(const volatile void* p, uint64_t n, int kind);
}
static inline uint64_t vs_u64(const char* n) { return vs_in(n, 64); }
static inline int64_t vs_i64(const char* n) { return (int64_t)vs_in(n, 64); }
static inline uint32_t vs_u32(const char* n) { return (uint32_t)vs_in(n, 32); }
static inline int32_t vs_i32(const char* n) { return (int32_t)vs_in(n, 32); }
static inline uint16_t vs_u16(const char* n) { return (uint16_t)vs_in(n, 16); }
static inline uint8_t vs_u8(const char* n) { return (uint8_t)vs_in(n, 8); }
static inline bool vs_bool(const char* n) { return vs_in(n, 1) != 0; }
static inline void vs_assume(bool c) { vs_assume_(c); }
static inline void vs_assert(bool c, const char* id) { vs_assert_(c, id); }
static inline uint64_t vs_range(const char* n, uint64_t lo, uint64_t hi) { // narrow variable: the high bits are constants for the solver
  unsigned bits = 1; while (bits < 64 && (hi >> bits)) bits++; uint64_t v = vs_in(n, bits); vs_assume(v >= lo && v <= hi); return v; }
