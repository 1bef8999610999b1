// Shared memory and queues are acquired whole or not at all (C15); partial presence of a queue's objects (C24).
#include "rpc.h"
#include "shared_memory.h"
#include <semaphore.h>
#include <sys/mman.h>
using namespace rpc;
namespace {
// which handles hold an object, and whose object the name stands for
struct Model { bool up[3] = {false, false, false}; int owner = -1; int64_t size = 0; bool linked[3] = {false, false, false}; };
void faults(int mask) { env.faultMask = mask; env.faultBudget = (int)vs_param("faults", 1); }
bool exists(const std::string& n) { return env_shm_exists(n.c_str()) || env_shm_exists(("/" + n).c_str()); }
}
// shared memory: any bounded history of create/open/close through two or three handles
static void shmHistory() {
  int n = (int)vs_param("handles", 2), ops = (int)vs_param("ops", 4); int64_t live0; { std::string w("/warm_shm_name"); } { SharedMemory warm("warm", 8); warm.create(); warm.close(); }
  live0 = vs_live(); { int64_t sz[3]; std::unique_ptr<SharedMemory> h[3]; sz[0] = (int64_t)vs_range("size", 1, 1 << 20); sz[1] = (int64_t)vs_range("size", 1, 1 << 20); sz[2] = sz[0];
    for (int i = 0; i < n; i++) h[i].reset(new SharedMemory("m", sz[i])); Model m; faults(F_SHMOPEN | F_FTRUNC | F_MMAP); uint8_t mark = 0; bool marked = false;
    for (int k = 0; k < ops; k++) {
      unsigned who = vs_choose((unsigned)n, "who"), op = vs_choose(3, "op"); SharedMemory& s = *h[who]; int before = env.faultsUsed; bool hadName = env_shm_named() > 0;
      if (op == 0) { if (m.up[who]) continue; bool r = s.create(); bool f = env.faultsUsed > before; if (!r) { vs_assert(f, "creating shared memory failed for no reason"); vs_assert(env_shm_named() == 0 || hadName, "a failed creation left its name"); if (env_shm_named() == 0) m.owner = -1; vs_reach("create failed"); }
        else { vs_assert(!f, "a failure was ignored"); vs_assert(s.data() && s.size() == sz[who] && env_shm_size("m") == sz[who], "created memory of another size"); s.data()[0] = 1; s.data()[sz[who] - 1] = 2; m.up[who] = true; m.owner = (int)who; m.size = sz[who]; marked = false; vs_reach("created"); } }
      else if (op == 1) { if (m.up[who]) continue; bool r = s.open(); bool f = env.faultsUsed > before; bool can = hadName && m.size >= sz[who]; if (f) can = false; vs_assert(r == can, can ? "existing memory was not opened" : "opened although that cannot work"); vs_assert(env_shm_named() == (int)hadName, "opening changed the names"); if (r) { vs_assert(s.data() != nullptr, "no data"); if (marked) vs_assert(s.data()[0] == mark, "opened another object"); s.data()[0] = mark = 77; s.data()[sz[who] - 1] = mark; if (sz[who] == 1) mark = 77; marked = true; m.up[who] = true; vs_reach("opened"); } else vs_reach("open failed"); }
      else { s.close(); bool own = m.owner == (int)who && m.up[who]; m.up[who] = false; if (own) { m.owner = -1; vs_assert(env_shm_named() == 0, "the creator left its name behind"); } else vs_assert(env_shm_named() == (int)hadName, "closing removed a name this participant did not create"); vs_reach("closed"); }
      int up = 0; for (int i = 0; i < n; i++) { up += m.up[i]; vs_assert(h[i]->valid() == m.up[i], "valid() is wrong"); }
      vs_assert(env.fds == up && env.maps == up, "handles differ from the objects held");
    }
    env.faultBudget = 0; for (int i = 0; i < n; i++) { h[i]->close(); h[i]->close(); }
    noHandles(); vs_assert(h[0]->create(), "cannot be created again"); h[0]->data()[0] = 3; SharedMemory o("m", sz[0]); vs_assert(o.open() && o.data()[0] == 3, "not reachable"); o.close(); vs_assert(env_shm_named() == 1, "an opener removed the name"); h[0]->close(); vs_assert(env_shm_named() == 0, "name left behind"); }
  noHandles(); vs_assert(vs_live() == live0, "memory leaked"); vs_reach("done");
}
// queues: the same with the lock and the read signal
static void queueHistory() {
  int n = (int)vs_param("handles", 2), ops = (int)vs_param("ops", 3); { MessageQueue w(2, 16); w.create("q"); MessageQueue o(2, 16); o.open("q"); }
  int64_t live0 = vs_live(); { MessageQueue* h[3]; for (int i = 0; i < n; i++) h[i] = new MessageQueue(2, 16); bool up[3] = {false, false, false}; int owner = -1; bool stale[3] = {false, false, false}; int queued = 0; faults(F_SHMOPEN | F_FTRUNC | F_MMAP | F_SEMOPEN);
    for (int k = 0; k < ops; k++) {
      unsigned who = vs_choose((unsigned)n, "who"), op = vs_choose(4, "op"); MessageQueue& q = *h[who]; int before = env.faultsUsed, shm = env_shm_named(), sem = env_sem_named();
      if (op == 0) { if (up[who]) continue; bool r = q.create("q"); bool f = env.faultsUsed > before; if (!r) { vs_assert(f, "creating a queue failed for no reason"); vs_assert(env_shm_named() <= shm && env_sem_named() <= sem, "a failed creation left a name"); owner = -1; for (int i = 0; i < n; i++) if (up[i]) stale[i] = true; queued = -1; vs_reach("create failed"); }
        else { vs_assert(!f, "a failure was ignored"); vs_assert(env_shm_named() == 1 && env_sem_named() == 2, "the names of a queue"); vs_assert(env_sem_value("q_rwlock") == 1 && env_sem_value("q_readsmp") == 0 && q.msgNumber() == 0, "a created queue is not empty and free"); for (int i = 0; i < n; i++) if (up[i]) stale[i] = true; up[who] = true; stale[who] = false; owner = (int)who; queued = 0; vs_reach("created"); } }
      else if (op == 1) { if (up[who]) continue; bool r = q.open("q"); bool f = env.faultsUsed > before; bool can = shm == 1 && sem == 2 && !f; if (!can) vs_assert(!r, f ? "a failure was ignored" : "opened a queue that does not exist"); else if (owner >= 0) vs_assert(r, "an existing queue was not opened"); vs_assert(env_shm_named() == shm && env_sem_named() == sem, "opening changed the names"); if (r) { up[who] = true; stale[who] = false; if (queued >= 0) vs_assert(q.msgNumber() == queued, "opened another queue"); vs_reach("opened"); } else vs_reach("open failed"); }
      else if (op == 2) { q.close(); if (owner == (int)who) { vs_assert(env_shm_named() == 0 && env_sem_named() == 0, "the creator left names behind"); owner = -1; for (int i = 0; i < n; i++) if (up[i]) stale[i] = true; queued = -1; } else vs_assert(env_shm_named() == shm && env_sem_named() == sem, "closing removed a name this participant did not create"); up[who] = false; stale[who] = false; vs_reach("closed"); }
      else { if (!up[who] || stale[who]) continue; uint8_t b[16] = {9}; vs_assert(q.processRWLock(20), "lock"); bool room = queued < 2; bool r = q.pushBack(b, 16); vs_assert(r == room, "push"); if (r) queued++; q.processRWUnlock(); vs_assert(q.msgNumber() == queued, "count"); }
      int u = 0; for (int i = 0; i < n; i++) u += up[i]; vs_assert(env.fds == u && env.maps == u && env.sems == 2 * u, "handles differ from the queues held");
    }
    env.faultBudget = 0; for (int i = 0; i < n; i++) { h[i]->close(); h[i]->close(); } noHandles();
    vs_assert(h[0]->create("q"), "cannot be created again"); vs_assert(h[1]->open("q"), "cannot be opened again"); uint8_t b[16] = {1}; int64_t w = 0; vs_assert(h[1]->processRWLock(20) && h[1]->pushBack(b, 7), "push"); h[1]->processRWUnlock(); h[1]->notifyRead(); b[0] = 0; vs_assert(h[0]->waitForRead(10) && h[0]->processRWLock(20) && h[0]->popFront(b, 16, w) && w == 7 && b[0] == 1, "pop"); h[0]->processRWUnlock();
    for (int i = n - 1; i >= 0; i--) delete h[i]; vs_assert(env_shm_named() == 0 && env_sem_named() == 0, "names left"); }
  noHandles(); vs_assert(vs_live() == live0, "memory leaked"); vs_reach("done");
}
// every failure point of one operation, twice in a row, then success
static void rollback() {
  int twice = (int)vs_param("faults", 2); { MessageQueue w(2, 16); w.create("q"); MessageQueue o(2, 16); o.open("q"); } int64_t live0 = vs_live();
  { bool op = vs_choose(2, "open"); MessageQueue c(3, 20), o(3, 20); if (op) vs_assert(c.create("q"), "create"); env.faultMask = F_SHMOPEN | F_FTRUNC | F_MMAP | F_SEMOPEN; env.faultBudget = twice; MessageQueue& q = op ? o : c; int tries = 0;
    for (;;) { int b = env.faultsUsed; int shm = env_shm_named(), sem = env_sem_named(); bool r = op ? q.open("q") : q.create("q"); bool f = env.faultsUsed > b; vs_assert(r == !f, f ? "a failure was ignored" : "failed for no reason"); if (r) break; int u = op ? 1 : 0; vs_assert(env.fds == u && env.maps == u && env.sems == 2 * u, "a failed operation left handles"); vs_assert(env_shm_named() == shm && env_sem_named() == sem, "a failed operation left names"); if (vs_choose(2, "close")) q.close(); tries++; vs_reach("failed"); }
    if (tries == 2) vs_reach("twice"); vs_assert(q.msgNumber() == 0 && q.processRWLock(10), "usable"); q.processRWUnlock(); }
  vs_assert(env_shm_named() == 0 && env_sem_named() == 0, "names left"); noHandles(); vs_assert(vs_live() == live0, "memory leaked"); vs_reach("done");
}
void leave(const char* n, unsigned have) { env_set_proc(1); MessageQueue* d = new MessageQueue(2, 16); vs_assert(d->create(n), "create"); env_set_proc(0); env_crash(1); std::string s(n); if (!(have & 1)) shm_unlink(("/" + s + "_shm").c_str()); if (!(have & 2)) sem_unlink((s + "_rwlock").c_str()); if (!(have & 4)) sem_unlink((s + "_readsmp").c_str()); }
// C24: some of the objects of a queue exist, as while its owner starts or after somebody died
static void partial() {
  unsigned have = vs_choose(8, "have"); MessageQueue q(2, 16); leave("q", have);
  int shm = env_shm_named(), sem = env_sem_named(); unsigned pre = vs_choose(3, "ask"); if (pre) { bool e = Semaphore::IsExist(pre == 1 ? "q_rwlock" : "q_readsmp"); vs_assert(e == !!(have & (pre == 1 ? 2 : 4)), "IsExist is wrong"); vs_assert(env_sem_named() == sem && env.sems == 0, "asking changed something"); }
  bool r = q.open("q"); vs_assert(r == (have == 7), r ? "opened an incomplete queue" : "a complete queue was not opened"); vs_assert(env_shm_named() == shm && env_sem_named() == sem, "an attempt to open a queue changed the names"); if (!r) noHandles(); else { vs_assert(q.processRWLock(10), "lock"); q.processRWUnlock(); } q.close(); noHandles(); vs_assert(env_shm_named() == shm && env_sem_named() == sem, "closing an opened queue changed the names");
  MessageQueue c(2, 16); vs_assert(c.create("q") && q.open("q"), "the queue cannot be started later"); vs_assert(c.processRWLock(10), "lock"); uint8_t b[4] = {5}; vs_assert(q.pushBack(b, 4) && c.msgNumber() == 1, "not the same queue"); c.processRWUnlock(); q.close(); c.close(); noHandles(); vs_reach("done");
}
extern "C" void vs_main() { switch (vs_param("case", 0)) { case 0: shmHistory(); break; case 1: queueHistory(); break; case 2: rollback(); break; case 3: partial(); break; } }
