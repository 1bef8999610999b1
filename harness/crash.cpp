// A process dies at any of its inter-process operations; an instance of the same name is started again (C17).
#include "rpc.h"
#include <stdexcept>
using namespace rpc;
namespace {
const int64_t MS = 1000000; int32_t X; Veigar *VA, *VB, *VD; int phase; bool CAP; int serveMs;
void bindF(Veigar& v) { v.bind("f", [](int32_t a) -> int32_t { return a; }); v.bind("slow", [](int32_t a) -> int32_t { env_sleep_ms(20); return a; }); }
bool callable(Veigar& v, const char* to) { auto f = v.asyncCall(to, 500, "f", X); bool ok = f->second.wait_for(std::chrono::milliseconds(700)) == std::future_status::ready; if (ok) { CallResult r = f->second.get(); int32_t y = -1; ok = r.isSuccess() && r.convertObject(y) && y == X; } v.releaseCall(f->first); return ok; }
// a lock that a dead process took along: of a queue whose owner lives on
bool peerLocked(const char* ch) { std::string c = std::string(ch) + "_call_rwlock", r = std::string(ch) + "_resp_rwlock"; return env_sem_holder_proc(c.c_str()) == 1 || env_sem_holder_proc(r.c_str()) == 1; }
void checkPeerLock(const char* ch) { bool stuck = env.crashed && peerLocked(ch); if (vs_param("peerlock", 0)) vs_assert(!stuck, "a process died holding the lock of a peer's queue and the peer stays blocked"); else if (stuck) { vs_reach("peer locked"); vs_end(); } }
void arm(int mask) { env.crashProc = 1; env.crashMask = mask; env.crashBudget = 1; env.preemptMask = (int)vs_param("mask", P_SEM); env.preemptBudget = (int)vs_param("preempt", 0); }
void disarm() { env.crashBudget = 0; env.preemptBudget = 0; }
void emptyAndFree(const char* ch) { std::string s(ch); for (const char* q : {"_call", "_resp"}) { vs_assert(env_sem_value((s + q + "_rwlock").c_str()) == 1, "a restarted queue has no free lock"); vs_assert(env_sem_value((s + q + "_readsmp").c_str()) == 0, "a restarted queue has a stale signal"); MessageQueue m(4, 128); vs_assert(m.open(s + q) && m.msgNumber() == 0, "a restarted queue is not empty"); m.close(); } }
void doomed(void*) { env_set_proc(1); VD = new Veigar; bindF(*VD); vs_assert(VD->init("D", 4, 128), "init of the instance that dies"); phase = 1; if (vs_param("calls", 0)) { for (int i = 0; i < (int)vs_param("calls", 0); i++) VD->asyncCall("A", 200, "f", X); } env_sleep_ms(serveMs); phase = 2; if (vs_param("close", 0)) { VD->uninit(); phase = 3; } for (;;) env_sleep_ms(1000); }
}
static void crash() {
  X = (int32_t)vs_range("x", 0, 127); phase = 0; serveMs = (int)vs_param("serve", 60); VD = nullptr; int n = (int)vs_param("n", 2); { Veigar A; vs_assert(A.init("A", 4, 128), "init"); bindF(A); Veigar C; bool third = vs_param("third", 0); if (third) vs_assert(C.init("C", 4, 128), "init");
    arm((int)vs_param("points", P_SEM | P_SHM | P_MQ)); int t = env_spawn(doomed, nullptr); (void)t; if (vs_param("early", 0)) env_yield(); else env_sleep_ms(35);
    std::vector<std::shared_ptr<AsyncCallResult>> f; std::vector<int64_t> at; for (int i = 0; i < n; i++) { int64_t t0 = env.now; f.push_back(A.asyncCall("D", 200, i & 1 ? "slow" : "f", X)); vs_assert(env.now - t0 <= 50 * MS, "a call blocked its caller"); if (vs_param("gap", 0)) env_sleep_ms(vs_param("gap", 0)); }
    env_sleep_ms(serveMs + 250); disarm(); if (!env.crashed) { vs_reach("at the end"); env_crash(1); } else vs_reach(phase == 0 ? "while starting" : phase == 1 ? "in service" : "while closing");
    checkPeerLock("A");
    for (auto& y : f) { if (y->second.wait_for(std::chrono::seconds(0)) == std::future_status::ready) { CallResult r = y->second.get(); int32_t v = -1; if (r.isSuccess()) vs_assert(r.convertObject(v) && v == X, "wrong result"); else vs_assert(!r.errorMessage.empty(), "no text"); } A.releaseCall(y->first); } f.clear();
    // calls to the dead instance do not block
    if (vs_param("dead", 0)) { int64_t t0 = env.now; auto y = A.asyncCall("D", 200, "f", X); if (y->second.wait_for(std::chrono::milliseconds(1000)) == std::future_status::ready) { vs_assert(env.now - t0 <= 300 * MS, "a call to a dead instance failed late"); CallResult r = y->second.get(); vs_assert(!r.isSuccess(), "a dead instance answered"); } A.releaseCall(y->first); }
    env_set_proc(2); Veigar* D = new Veigar; bindF(*D); vs_assert(D->init("D", 4, 128), "an instance cannot be started after a crash"); env_set_proc(0); emptyAndFree("D");
    vs_assert(callable(A, "D"), "a peer of the dead instance does not reach the restarted one"); env_set_proc(2); vs_assert(callable(*D, "A"), "the restarted instance cannot call"); vs_assert(callable(*D, "D"), "the restarted instance cannot call itself"); env_set_proc(0); if (third) vs_assert(callable(C, "D"), "another instance does not reach the restarted one"); vs_assert(callable(A, "A"), "the peer does not work any more");
    env_set_proc(2); D->uninit(); delete D; env_set_proc(0); vs_assert(!env_shm_exists("D_call_shm") && env_sem_value("D_call_rwlock") < 0 && !env_shm_exists("D_resp_shm"), "names left by the restarted instance"); A.uninit(); if (third) C.uninit(); }
  noHandles(); vs_reach("done");
}
extern "C" void vs_main() { crash(); }
