// One instance used from several threads at once.
#include "rpc.h"
#include <algorithm>
#include <stdexcept>
using namespace rpc;
namespace {
const int64_t MS = 1000000; Veigar *A, *B; int32_t X; int cbs[3]; unsigned ops[3]; std::string pendingId; std::shared_ptr<AsyncCallResult> pending; const unsigned NOP = 16;
void good(CallResult& r, int32_t want) { int32_t v = -1; vs_assert(r.isSuccess() && r.convertObject(v) && v == want, "a call gave another result when other threads use the instance"); }
void op(int me, unsigned o) {
  std::string mine = "own" + std::to_string(me); int32_t x = X + me;
  switch (o) {
    case 0: { CallResult r = A->syncCall("B", 1000, "f", x); good(r, x + 1); break; }
    case 1: { auto f = A->asyncCall("B", 1000, "f", x); vs_assert(f->second.wait_for(std::chrono::milliseconds(900)) == std::future_status::ready, "a call did not complete"); CallResult r = f->second.get(); good(r, x + 1); A->releaseCall(f->first); break; }
    case 2: { A->asyncCall([me, x](const CallResult& r) { cbs[me]++; good(const_cast<CallResult&>(r), x + 1); }, "B", 1000, "f", x); env_sleep_ms(60); vs_assert(cbs[me] == 1, "a callback did not run exactly once"); break; }
    case 3: { CallResult r = A->syncCall("A", 1000, "f", x); good(r, x + 1); break; }
    case 4: { vs_assert(A->bind(mine, [x](int32_t a) -> int32_t { return a + 2 + 0 * x; }), "a free name could not be bound"); CallResult r = B->syncCall("A", 1000, mine, x); good(r, x + 2); A->unbind(mine); r = B->syncCall("A", 1000, mine, x); vs_assert(!r.isSuccess(), "a call reached an unbound function"); break; }
    case 5: { auto n = A->bindNames(); vs_assert(std::count(n.begin(), n.end(), "f") == 1, "a bound name is missing"); break; }
    case 6: { A->setTimeoutOfRWLock(40); vs_assert(A->timeoutOfRWLock() == 40, "lock timeout"); break; }
    case 7: vs_assert(A->isInit() && A->channelName() == "A" && A->msgQueueCapacity() == 8 && A->expectedMsgMaxSize() == 160, "settings"); break;
    case 8: { auto f = A->asyncCall("B", 1000, "f", x); A->releaseCall(f->first); A->releaseCall("nothing"); env_sleep_ms(30); break; }
    case 9: { CallResult r = A->syncCall("nobody", 100, "f", x); vs_assert(!r.isSuccess() && !r.errorMessage.empty(), "absent"); break; }
    case 10: { CallResult r = A->syncCall("B", 1000, "t", x); vs_assert(!r.isSuccess() && r.errCode == ErrorCode::SUCCESS && r.errorMessage.find("thrown") != std::string::npos, "the text of an exception"); break; }
    case 11: { CallResult r = B->syncCall("A", 1000, "f", x); good(r, x + 1); break; }
    case 12: { A->bind("shared", [](int32_t a) -> int32_t { return a + 3; }); CallResult r = B->syncCall("A", 1000, "shared", x); if (r.isSuccess()) good(r, x + 3); A->unbind("shared"); break; }
    case 13: A->releaseCall(pendingId); break;
    case 14: { bool r = A->init("A", 8, 160), q = A->init("other", 8, 160); vs_assert(r && !q, "starting a running instance"); break; }
    case 15: { CallResult r = A->syncCall("B", 1000, "e", std::string(900, 'x')); std::string s; vs_assert(r.isSuccess() && r.convertObject(s) && s == std::string(900, 'x'), "a long text came back differently"); break; }
  }
}
}
static void together() {
  int n = (int)vs_param("n", 2); X = (int32_t)vs_range("x", 0, 31); int from = (int)vs_param("from", 0), to = (int)vs_param("to", (int64_t)NOP); ops[0] = (unsigned)from + vs_choose((unsigned)(to - from), "first"); ops[1] = vs_choose(NOP, "second"); if (ops[1] < ops[0]) { vs_reach("done"); return; } if (n > 2) ops[2] = vs_choose(NOP, "third"); for (int& c : cbs) c = 0;
  { Veigar a, b; A = &a; B = &b; vs_assert(a.init("A", 8, 160) && b.init("B", 8, 160), "init"); for (Veigar* v : {A, B}) { v->bind("f", [](int32_t q) -> int32_t { return q + 1; }); v->bind("t", [](int32_t) -> int32_t { throw std::runtime_error("thrown"); }); v->bind("e", [](std::string s) -> std::string { return s; }); v->bind("slow", [](int32_t q) -> int32_t { env_sleep_ms(30); return q; }); }
    pending = a.asyncCall("B", 1000, "slow", X); pendingId = pending->first; env_sleep_ms(10); static int ix[3] = {0, 1, 2};
    env.preemptMask = (int)vs_param("mask", P_SEM | P_MTX); env.preemptBudget = (int)vs_param("preempt", 1); int t[3]; for (int i = 1; i < n; i++) t[i] = env_spawn([](void* p) { int i = *(int*)p; op(i, ops[i]); }, &ix[i]); op(0, ops[0]); for (int i = 1; i < n; i++) env_join(t[i]); env.preemptBudget = 0; env_sleep_ms(100);
    bool released = false; for (int i = 0; i < n; i++) released |= ops[i] == 13; bool ready = pending->second.wait_for(std::chrono::seconds(0)) == std::future_status::ready; if (!released) { vs_assert(ready, "an outstanding call did not complete"); CallResult r = pending->second.get(); good(r, X); } a.releaseCall(pendingId); pending.reset();
    auto names = a.bindNames(); vs_assert(names.size() == 4, "the listed names are not the bound ones"); CallResult r = a.syncCall("B", 1000, "f", X); good(r, X + 1); r = b.syncCall("A", 1000, "f", X); good(r, X + 1); lockFree("A"); lockFree("B"); a.uninit(); b.uninit(); }
  noHandles(); vs_assert(env_threads_alive() == 1, "threads left"); vs_reach("done");
}
extern "C" void vs_main() { together(); }
