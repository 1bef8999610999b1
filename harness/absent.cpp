// Targets that are not there, come and go (C24).
#include "rpc.h"
#include <semaphore.h>
#include <sys/mman.h>
using namespace rpc;
namespace {
const int64_t MS = 1000000; const char* PARTS[6] = {"_call_rwlock", "_call_readsmp", "_resp_rwlock", "_resp_readsmp", "_call_shm", "_resp_shm"};
bool part(const char* ch, int i) { std::string s = std::string(ch) + PARTS[i]; return i < 4 ? env_sem_value(s.c_str()) >= 0 : env_shm_exists(s.c_str()); }
unsigned parts(const char* ch) { unsigned m = 0; for (int i = 0; i < 6; i++) m |= (unsigned)part(ch, i) << i; return m; }
void place(const char* ch, unsigned m, int cap, int esz) { env_set_proc(1); std::string s(ch); for (const char* q : {"_call", "_resp"}) { MessageQueue* d = new MessageQueue(cap, esz); vs_assert(d->create(s + q), "create"); } env_set_proc(0); env_crash(1); for (int i = 0; i < 6; i++) if (!(m >> i & 1)) { std::string n = s + PARTS[i]; if (i < 4) sem_unlink(n.c_str()); else shm_unlink(("/" + n).c_str()); } }
struct Got { int n = 0; bool ok = false; ErrorCode code = ErrorCode::SUCCESS; std::string msg; int32_t val = -1; } G;
void one(Veigar& A, int kind, const std::string& to, int32_t x) { G = Got(); auto take = [](const CallResult& r) { G.n++; G.ok = r.isSuccess(); G.code = r.errCode; G.msg = r.errorMessage; int32_t v; if (const_cast<CallResult&>(r).convertObject(v)) G.val = v; };
  if (kind == 0) { CallResult r = A.syncCall(to, 300, "f", x); take(r); } else if (kind == 1) A.asyncCall(take, to, 300, "f", x); else { auto f = A.asyncCall(to, 300, "f", x); if (f->second.wait_for(std::chrono::milliseconds(400)) == std::future_status::ready) { CallResult r = f->second.get(); take(r); } A.releaseCall(f->first); } if (kind == 1) env_sleep_ms(60); }
void expect(bool up, int32_t x, int64_t t0) { vs_assert(G.n == 1, "a call did not complete exactly once"); if (up) { vs_assert(G.ok && G.val == x, "a running target was not reached"); vs_reach("reached"); } else { vs_assert(!G.ok && G.code != ErrorCode::SUCCESS && !G.msg.empty(), "a call to an absent target did not fail"); vs_assert(env.now - t0 <= 400 * MS, "the failure came after the timeout"); vs_reach("absent"); } }
}
// a history of calls, starts and stops of the target
static void comeAndGo() {
  int k = (int)vs_param("k", 4); int32_t x = (int32_t)vs_range("x", 0, 127); { Veigar A; vs_assert(A.init("A", 4, 128), "init"); std::unique_ptr<Veigar> B; bool up = false; int calls = 0;
    for (int i = 0; i < k; i++) { unsigned op = vs_choose(3, "op");
      if (op == 0) { unsigned before = parts("B"); int sems = env_sem_named(), shms = env_shm_named(); int64_t t0 = env.now; one(A, (int)vs_choose(3, "kind"), "B", x); expect(up, x, t0); calls++; vs_assert(parts("B") == before && env_sem_named() == sems && env_shm_named() == shms, "a call created or removed system objects"); }
      else if (op == 1) { if (up) continue; if (!B || vs_choose(2, "fresh")) B.reset(new Veigar); B->bind("f", [](int32_t a) -> int32_t { return a; }); vs_assert(B->init("B", 4, 128), "the target cannot be started"); up = true; vs_assert(parts("B") == 63, "objects of a running instance"); }
      else { if (!up) continue; B->uninit(); up = false; vs_assert(parts("B") == 0, "an instance left objects behind"); } }
    if (!up) { int64_t t0 = env.now; one(A, 0, "B", x); expect(false, x, t0); vs_assert(parts("B") == 0, "a call to an absent target left objects"); if (!B) B.reset(new Veigar); B->bind("f", [](int32_t a) -> int32_t { return a; }); vs_assert(B->init("B", 4, 128), "the target cannot be started"); }
    int64_t t0 = env.now; one(A, 0, "B", x); expect(true, x, t0); A.uninit(); B->uninit(); vs_assert(env_sem_named() == 0 && env_shm_named() == 0, "objects left behind"); }
  noHandles(); vs_reach("done");
}
// only some of the target's objects exist
static void leftovers() {
  unsigned m = vs_choose(64, "parts"); int32_t x = (int32_t)vs_range("x", 0, 127); { Veigar A; vs_assert(A.init("A", 4, 128), "init"); place("B", m, 4, 128); int sems = env_sem_named(), shms = env_shm_named(); int64_t t0 = env.now; bool complete = (m & 0x13) == 0x13;
    if (!complete) { one(A, (int)vs_choose(3, "kind"), "B", x); expect(false, x, t0); } else { auto f = A.asyncCall("B", 300, "f", x); env_sleep_ms(400); A.releaseCall(f->first); }
    vs_assert(parts("B") == m && env_sem_named() == sems && env_shm_named() == shms, "a call created or removed system objects");
    Veigar B; B.bind("f", [](int32_t a) -> int32_t { return a; }); vs_assert(B.init("B", 4, 128), "the target cannot be started over leftovers"); t0 = env.now; one(A, 0, "B", x); expect(true, x, t0); A.uninit(); B.uninit(); vs_assert(parts("B") == 0, "objects left behind"); }
  noHandles(); vs_reach("done");
}
// the target starts or stops while it is being called
static Veigar *VA, *VB; static int32_t X;
static void racing() {
  X = (int32_t)vs_range("x", 0, 127); bool stop = vs_param("stop", 0); { Veigar A, B; VA = &A; VB = &B; B.bind("f", [](int32_t a) -> int32_t { return a; }); vs_assert(A.init("A", 4, 128), "init"); if (stop) vs_assert(B.init("B", 4, 128), "init");
    env.preemptMask = (int)vs_param("mask", P_SEM | P_SHM); env.preemptBudget = (int)vs_param("preempt", 1); static bool S; S = stop;
    int t = env_spawn([](void*) { if (S) VB->uninit(); else vs_assert(VB->init("B", 4, 128), "the target cannot be started while it is being called"); }, nullptr);
    auto f = A.asyncCall("B", 300, "f", X); bool ready = f->second.wait_for(std::chrono::milliseconds(400)) == std::future_status::ready; env_join(t); env.preemptBudget = 0;
    if (ready) { CallResult r = f->second.get(); int32_t v = -1; if (r.isSuccess()) vs_assert(r.convertObject(v) && v == X, "wrong result"); else vs_assert(!r.errorMessage.empty(), "no text"); vs_reach("completed"); } else { vs_assert(stop, "a call did not complete although the target was never stopped"); vs_reach("lost"); }
    A.releaseCall(f->first); if (stop) { vs_assert(parts("B") == 0, "objects left after the target stopped"); int64_t t0 = env.now; one(A, 0, "B", X); expect(false, X, t0); vs_assert(parts("B") == 0, "a call to an absent target left objects"); vs_assert(B.init("B", 4, 128), "restart"); B.bind("f", [](int32_t a) -> int32_t { return a; }); }
    int64_t t0 = env.now; one(A, 0, "B", X); expect(true, X, t0); A.uninit(); B.uninit(); vs_assert(env_sem_named() == 0 && env_shm_named() == 0, "objects left behind"); }
  noHandles(); vs_reach("done");
}
extern "C" void vs_main() { switch (vs_param("case", 0)) { case 0: comeAndGo(); break; case 1: leftovers(); break; case 2: racing(); break; } }
