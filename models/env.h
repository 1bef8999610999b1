// Environment model: threads and their scheduler, mutexes, condition variables, futures, named semaphores,
// POSIX shared memory, clocks.  One source for the symbolic run and for the native replay.
#pragma once
#include "vs.h"
#include <string>
enum { P_SEM = 1, P_MTX = 2, P_COND = 4, P_SHM = 8, P_CLOCK = 16, P_THR = 32, P_MQ = 64, P_ATM = 128 };
enum { F_SEMOPEN = 1, F_SHMOPEN = 2, F_FTRUNC = 4, F_MMAP = 8, F_SEMWAIT = 16, F_MALLOC = 32, F_SPURIOUS = 64, F_THREAD = 128 };
struct Env {
  int preemptMask = 0, preemptBudget = 0;   // where a running thread may lose the CPU, and how often in total
  int stallBudget = 0; int64_t stallMs = 50; // a thread may additionally be delayed by stallMs, that often
  int switchBudget = 0;                     // nondeterministic choice of the next thread when one blocks
  int faultMask = 0, faultBudget = 0;       // system calls that may fail, and how often in total
  int crashBudget = 0, crashMask = 0, crashProc = -1;       // process crashProc may die at these points
  bool crashed = false;
  int64_t now = 0;                          // virtual nanoseconds
  int64_t maxNow = 4000000000000ll;
  bool symClock = false;                    // first wall clock value symbolic
  bool symRand = false; int randIdx = 0; bool randOther = false, randUniform = false; // randOther: every value differs from the recorded one; randUniform: one value and one difference for all draws (their order does not matter)
  bool checkBinary = false;                 // names ending in _rwlock must stay binary
  bool checkOwner = false;                  // queues may only be used by the thread that holds their lock
  int noPreempt = 0; bool race = false;     // race: happens-before race detection (env_race)
  int proc = 0;                             // "process" new threads and kernel handles belong to
  // counters
  int fds = 0, maps = 0, sems = 0, badClose = 0, badUnmap = 0, faultsUsed = 0, switches = 0, timedOutWaits = 0, einval = 0;
  int64_t wallBase = 1700000000ll * 1000000000ll;
  bool hookWait = false;                    // record the arguments of sem_timedwait/clockwait instead of blocking
  int hookCount = 0; int64_t hookSec = 0, hookNsec = 0; bool hookWaitForever = false; int64_t hookResult = 0;
};
extern Env env;
// allocation faults: the count-th allocation of at least min bytes fails (count 0: none)
struct EnvAlloc { int64_t count; int64_t min; int64_t failed; };
extern "C" EnvAlloc env_alloc;
int env_threads_alive();
int env_sem_value(const char* name);        // -1: does not exist
int env_sem_holder_proc(const char* name);  // process of the thread that took the last token, -1: none
bool env_shm_exists(const char* name);
int64_t env_shm_size(const char* name);
uint8_t* env_shm_data(const char* name);
void env_shm_place(const char* name, void* mem, int64_t size);   // make an object with given content exist
void env_sem_place(const char* name, int value);
int env_sem_named();                        // number of names that exist
int env_shm_named();
void env_sleep_ms(int64_t ms);
void env_yield();                           // let every other runnable thread run once
void env_set_proc(int p);                   // threads and handles created from now on by the current thread belong to p
void env_crash(int p);                      // kill process p now
bool env_proc_dead(int p);
void env_new_rand();                        // a new process: rand() starts again
void env_race(bool on);                     // from here on report unsynchronised accesses (instrumented builds)
int env_self();
int env_spawn(void (*fn)(void*), void* arg); // thread of the harness
void env_join(int t);
bool env_done(int t);
void env_quiesce(int64_t ms);               // let virtual time pass
