// An instance can be moved: whatever it had goes with it.
#include "rpc.h"
#include <algorithm>
using namespace rpc;
namespace {
struct R { int n = 0; bool ok = false; int32_t v = -1; } K[3]; std::shared_ptr<AsyncCallResult> F[3];
void bindTo(Veigar& v) { vs_assert(v.bind("f", [](int32_t a) -> int32_t { return a + 1; }) && v.bind("slow", [](int32_t a) -> int32_t { env_sleep_ms(60); return a + 2; }), "bind"); }
void issue(Veigar& A, int i, const char* to, const char* fn, int32_t x, bool cb) { K[i] = R(); if (cb) A.asyncCall([i](const CallResult& r) { K[i].n++; K[i].ok = r.isSuccess(); const_cast<CallResult&>(r).convertObject(K[i].v); }, to, 1000, fn, x); else F[i] = A.asyncCall(to, 1000, fn, x); }
void collect(int i) { if (!F[i] || K[i].n) return; if (F[i]->second.wait_for(std::chrono::seconds(0)) != std::future_status::ready) return; CallResult r = F[i]->second.get(); K[i].n++; K[i].ok = r.isSuccess(); r.convertObject(K[i].v); }
void works(Veigar& v, Veigar& B, int32_t x) {
  int32_t o = -1; CallResult r = B.syncCall(v.channelName(), 500, "f", x); vs_assert(r.isSuccess() && r.convertObject(o) && o == x + 1, "a moved instance does not serve its functions"); o = -1; r = v.syncCall("B", 500, "f", x); vs_assert(r.isSuccess() && r.convertObject(o) && o == x + 1, "a moved instance cannot call"); o = -1; r = v.syncCall(v.channelName(), 500, "f", x); vs_assert(r.isSuccess() && r.convertObject(o) && o == x + 1, "a moved instance cannot call itself"); r = v.syncCall("nobody", 200, "f", x); vs_assert(!r.isSuccess(), "absent");
}
}
static void moving() {
  int32_t x = (int32_t)vs_range("x", 0, 63); bool busy = vs_param("busy", 0); unsigned state = busy ? 2 : vs_choose(4, "state"), way = vs_choose(busy ? 2 : 4, "way"), flight = busy ? 1 + vs_choose(3, "in flight") : state == 2 ? vs_choose(4, "in flight") : 0; bool destroyed = busy || vs_choose(2, "source destroyed"); int64_t live0 = vs_live(); for (auto& f : F) f.reset(); for (auto& k : K) k = R();
  { Veigar B; vs_assert(B.init("B", 4, 160), "init"); bindTo(B); Veigar* A = new Veigar; Veigar* D = nullptr;
    if (state >= 1) bindTo(*A); if (state >= 2) { vs_assert(A->init("A", 4, 160), "init"); A->setTimeoutOfRWLock(17); } if (state == 3) { A->uninit(); bindTo(*A); }
    if (way == 1) D = new Veigar; if (way == 2) { D = new Veigar; D->bind("old", []() {}); vs_assert(D->init("old", 2, 64), "init"); D->uninit(); } if (way == 3) { D = new Veigar; D->bind("old", []() {}); vs_assert(D->init("old", 2, 64), "init"); }
    if (flight) { issue(*A, 0, "B", "slow", x, flight & 1); issue(B, 1, "A", "slow", x, flight & 2); issue(*A, 2, "A", "f", x, flight & 2); env.preemptMask = P_SEM | P_MTX; env.preemptBudget = (int)vs_param("preempt", 1); if (vs_choose(2, "later")) env_sleep_ms(10); }
    if (way == 0) D = new Veigar(std::move(*A)); else *D = std::move(*A); vs_assert(!A->isInit(), "a moved-from instance is running"); vs_assert(A->bindNames().empty(), "a moved-from instance kept its functions"); if (destroyed) { delete A; A = nullptr; }
    if (flight) { env_sleep_ms(300); env.preemptBudget = 0; for (int i = 0; i < 3; i++) { collect(i); vs_assert(K[i].n == 1 && K[i].ok && K[i].v == x + (i == 2 ? 1 : 2), "a call was lost by moving the instance"); } if (F[0]) D->releaseCall(F[0]->first); if (F[1]) B.releaseCall(F[1]->first); if (F[2]) D->releaseCall(F[2]->first); }
    if (destroyed && !busy) { Veigar& self = *D; self = std::move(*D); } // moving to itself changes nothing
    vs_assert(D->isInit() == (state == 2), "a moved instance changed its state"); auto n = D->bindNames(); vs_assert(n.size() == (state ? 2u : 0u), "a moved instance lost its functions or has others"); if (state == 2) vs_assert(D->channelName() == "A" && D->msgQueueCapacity() == 4 && D->expectedMsgMaxSize() == 160 && D->timeoutOfRWLock() == 17, "a moved instance lost its settings");
    if (state == 2) works(*D, B, x); else { if (!state) bindTo(*D); vs_assert(D->init("A", 4, 160), "a moved instance cannot start"); works(*D, B, x); }
    if (!busy && vs_choose(2, "again")) { Veigar E(std::move(*D)); works(E, B, x); *D = std::move(E); works(*D, B, x); if (A) { *A = std::move(*D); works(*A, B, x); std::swap(A, D); } }
    if (state == 1) { D->unbind("slow"); D->bind("more", []() {}); n = D->bindNames(); vs_assert(n.size() == 2 && std::count(n.begin(), n.end(), "more") == 1, "a moved instance cannot bind"); }
    D->uninit(); if (A) { *A = Veigar(); bindTo(*A); vs_assert(A->init("A", 4, 160), "an instance that got a new value cannot start"); works(*A, B, x); A->uninit(); delete A; } delete D; B.uninit(); for (auto& f : F) f.reset(); }
  noHandles(); vs_assert(env_threads_alive() == 1, "threads left"); vs_assert(env_shm_named() == 0, "names left"); vs_assert(vs_live() == live0, "memory left"); vs_reach("done");
}
extern "C" void vs_main() { switch (vs_param("case", 0)) { case 0: moving(); break; } }
