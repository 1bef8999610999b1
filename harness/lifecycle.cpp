// Starting, using and shutting down instances (C16).
#include "rpc.h"
#include <stdexcept>
using namespace rpc;
namespace {
const int64_t MS = 1000000; int ran;
void bindF(Veigar& v) { v.bind("f", [](int32_t a) -> int32_t { ran++; return a; }); }
bool callable(Veigar& v, const char* to, int32_t x) { CallResult r = v.syncCall(to, 1000, "f", x); int32_t y = -1; return r.isSuccess() && r.convertObject(y) && y == x; }
void nothing(const char* id) { vs_assert(env.fds == 0 && env.maps == 0 && env.sems == 0 && env.badClose == 0 && env.badUnmap == 0, id); vs_assert(env_sem_named() == 0 && env_shm_named() == 0, id); vs_assert(env_threads_alive() == 1, id); }
void warm() { Veigar w; w.init("warm", 2, 64); bindF(w); callable(w, "warm", 1); w.uninit(); nothing("warm-up"); }
}
// any history of operations on one instance
static void history() {
  warm(); ran = 0; int k = (int)vs_param("k", 4); int32_t x = (int32_t)vs_range("x", 0, 127); int64_t live0 = vs_live();
  { Veigar A; bool up = false; std::string name; env.faultMask = F_SEMOPEN | F_SHMOPEN | F_FTRUNC | F_MMAP | F_THREAD; int faults = (int)vs_param("faults", 0);
    for (int i = 0; i < k; i++) {
      unsigned op = vs_choose(6, "op");
      if (op < 2) { const char* n = op ? "Z" : "A"; int before = env.faultsUsed; env.faultBudget = faults; bool r = A.init(n, 4, 128); env.faultBudget = 0; bool f = env.faultsUsed > before; faults -= env.faultsUsed - before;
        if (up) vs_assert(r == (name == n), r ? "a running instance was started under another name" : "starting twice under the same name was refused"); else { vs_assert(r == !f, r ? "a failure was ignored" : "an instance could not be started"); if (r) { up = true; name = n; vs_reach("started"); } else { nothing("a failed start left something behind"); vs_reach("failed"); } } }
      else if (op == 2) { bool r = A.init(vs_choose(2, "bad") ? "" : "a/b", 4, 128); vs_assert(!r, "an impossible name was accepted"); if (!up) nothing("a refused start left something behind"); }
      else if (op == 3) { int64_t t0 = env.now; A.uninit(); vs_assert(env.now - t0 <= 200 * MS, "shutting down took long"); up = false; nothing("shutting down left something behind"); vs_reach("stopped"); }
      else if (op == 4) { if (up) { A.bind("f", [](int32_t a) -> int32_t { ran++; return a; }); vs_assert(callable(A, name.c_str(), x), "a running instance cannot be called"); } else { CallResult r = A.syncCall("A", 100, "f", x); vs_assert(!r.isSuccess() && r.errCode != ErrorCode::SUCCESS, "a call by a stopped instance succeeded"); } }
      else if (op == 5) { auto f = A.asyncCall("nobody", 100, "f", x); A.releaseCall(f->first); }
      vs_assert(A.isInit() == up, "isInit is wrong"); if (up) { vs_assert(A.channelName() == name, "the channel name is wrong"); vs_assert(A.msgQueueCapacity() == 4 && A.expectedMsgMaxSize() == 128, "queue configuration"); }
    }
    A.uninit(); A.uninit(); nothing("shutting down left something behind"); vs_assert(A.init("A", 4, 128), "cannot start again"); bindF(A); vs_assert(callable(A, "A", x), "cannot be called after a restart"); A.uninit(); nothing("shutting down left something behind"); }
  vs_assert(vs_live() == live0, "memory leaked"); vs_reach("done");
}
// every failure while starting
static void failingStart() {
  warm(); int32_t x = (int32_t)vs_range("x", 0, 127); int64_t live0 = vs_live(); { Veigar A; env.faultMask = F_SEMOPEN | F_SHMOPEN | F_FTRUNC | F_MMAP | F_THREAD; env.faultBudget = (int)vs_param("faults", 1); int tries = 0;
    for (;;) { int before = env.faultsUsed; bindF(A); bool r = A.init("A", 4, 128); bool f = env.faultsUsed > before; vs_assert(r == !f && A.isInit() == r, r ? "a failure was ignored" : "an instance could not be started"); if (r) break; nothing("a failed start left something behind"); tries++; CallResult c = A.syncCall("A", 100, "f", x); vs_assert(!c.isSuccess(), "a call by a stopped instance succeeded"); if (vs_choose(2, "uninit")) A.uninit(); vs_reach("failed"); }
    env.faultBudget = 0; bindF(A); vs_assert(callable(A, "A", x), "cannot be called"); A.uninit(); nothing("shutting down left something behind"); }
  vs_assert(vs_live() == live0, "memory leaked"); vs_reach("done");
}
// shutdown of either side at any moment of ordinary traffic
static Veigar *VA, *VB; static int kind; static int32_t X; static int done;
static void traffic() {
  warm(); X = (int32_t)vs_range("x", 0, 127); kind = (int)vs_param("kind", 0); bool who = vs_param("who", 0); done = 0; int64_t live0 = vs_live();
  { Veigar A, B; VA = &A; VB = &B; vs_assert(A.init("A", 4, 128) && B.init("B", 4, 128), "init"); bindF(A); bindF(B); B.bind("slow", [](int32_t a) -> int32_t { env_sleep_ms(40); return a; }); if (vs_param("warmtgt", 0)) { vs_assert(callable(A, "B", X), "call"); }
    env.preemptMask = (int)vs_param("mask", P_SEM | P_MTX | P_COND); env.preemptBudget = (int)vs_param("preempt", 2);
    int t = env_spawn([](void*) { if (kind == 0) { auto f = VA->asyncCall("B", 200, "f", X); f->second.wait_for(std::chrono::milliseconds(300)); VA->releaseCall(f->first); } else if (kind == 1) { VA->asyncCall([](const CallResult&) { done++; }, "B", 200, "f", X); } else if (kind == 2) { auto f = VA->asyncCall("B", 200, "slow", X); f->second.wait_for(std::chrono::milliseconds(300)); VA->releaseCall(f->first); } else { VA->asyncCall([](const CallResult&) { done++; }, "B", 200, "f", X); VB->asyncCall([](const CallResult&) { done++; }, "A", 200, "f", X); } }, nullptr);
    unsigned w = vs_choose((unsigned)vs_param("whens", 5), "when"); if (w == 0) env_sleep_ms(1); else if (w == 1) env_sleep_ms(35); else for (unsigned i = 1; i < w; i++) env_yield();
    Veigar& S = who ? B : A; const char* n = who ? "B" : "A"; int64_t t0 = env.now; S.uninit(); vs_assert(env.now - t0 <= 1000 * MS, "shutting down took long"); vs_assert(!S.isInit(), "isInit"); env.preemptBudget = 0; std::string c = std::string(n) + "_call_shm", r = std::string(n) + "_resp_shm"; vs_assert(!env_shm_exists(c.c_str()) && !env_shm_exists(r.c_str()), "names left by the shutdown"); env_join(t);
    vs_assert(S.init(n, 4, 128), "cannot start again"); bindF(S); vs_assert(callable(A, "B", X), "a call after the restart failed"); vs_assert(callable(B, "A", X), "a call after the restart failed"); vs_assert(callable(A, "A", X) && callable(B, "B", X), "a call after the restart failed"); if (vs_choose(2, "order")) { A.uninit(); B.uninit(); } else { B.uninit(); A.uninit(); } if (kind & 1) vs_assert(done == (kind == 1 ? 1 : 2), "a callback did not run exactly once"); nothing("shutting down left something behind"); }
  vs_assert(vs_live() == live0, "memory leaked"); vs_reach("done");
}
// shutdown while sending threads wait for a full or locked queue of somebody else
static void blockedShutdown() {
  warm(); int32_t x = (int32_t)vs_range("x", 0, 127); int64_t live0 = vs_live(); unsigned how = vs_choose(4, "how"); { Veigar A; vs_assert(A.init("A", 2, 160), "init"); bindF(A); Raw t(2, 160), a(2, 160); t.create("T"); vs_assert(a.openCall("A"), "open"); MessageQueue& q = how & 1 ? t.resp : t.call; std::vector<std::shared_ptr<AsyncCallResult>> f;
    if (how < 2) { for (int i = 0; i < 2; i++) Raw::put(q, Bytes(160, 1)); } else vs_assert(q.processRWLock(100), "lock");
    int n = (int)vs_param("n", 3); for (int i = 0; i < n; i++) { if (how & 1) { Raw::put(a.call, callMsg("id" + std::to_string(i), "T", "f", Bytes{0x91, 7})); env_sleep_ms(5); } else f.push_back(A.asyncCall("T", 3000, "f", x)); }
    env.preemptMask = P_SEM | P_MTX | P_COND; env.preemptBudget = (int)vs_param("preempt", 1); static const int64_t at[] = {0, 2, 8, 33, 100}; env_sleep_ms(at[vs_choose(5, "at")]); int64_t t0 = env.now; A.uninit(); vs_assert(env.now - t0 <= 1000 * MS, "shutting down waited for the timeouts of undelivered messages"); env.preemptBudget = 0; for (auto& y : f) vs_assert(y->second.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "a call was left incomplete by the shutdown"); vs_assert(env_threads_alive() == 1, "threads left"); f.clear();
    if (how >= 2) q.processRWUnlock(); a.close(); t.close(); vs_assert(A.init("A", 4, 160), "cannot start again"); bindF(A); vs_assert(callable(A, "A", x), "a call after the restart failed"); A.uninit(); nothing("shutting down left something behind"); }
  vs_assert(vs_live() == live0, "memory leaked"); vs_reach("done");
}
extern "C" void vs_main() { switch (vs_param("case", 0)) { case 0: history(); break; case 1: failingStart(); break; case 2: traffic(); break; case 3: blockedShutdown(); break; } }
