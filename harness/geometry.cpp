// Participants configured with different queue geometries (C23).
#include "rpc.h"
using namespace rpc;
namespace {
struct Q1 { uint8_t* d; int64_t n; };
void drain(MessageQueue& a, std::vector<Q1>& m, int64_t probe, const char* id) { for (auto& x : m) { uint8_t* o = (uint8_t*)vs_lazy((uint64_t)x.n, "out", 0); int64_t w = -1; vs_assert(a.popFront(o, x.n, w) && w == x.n, id); int64_t k = probe < x.n ? probe : 0; vs_assert(o[k] == x.d[k], id); } vs_assert(a.msgNumber() == 0, id); m.clear(); }
}
// a queue of one geometry, opened with any other
static void pairs() {
  bool same = vs_param("samesize", 0); int M1 = (int)vs_param("m1", 2); int64_t E1; int32_t M2, E2;
  if (vs_param("small", 1)) { E1 = (int64_t)vs_range("e1", 1, 1 << 12); M2 = 1 + (int32_t)vs_choose((unsigned)vs_param("m2max", 6), "m2"); E2 = (int32_t)vs_range("e2", 1, 1 << 13); } else { E1 = vs_param("e1", 5); M2 = (int32_t)vs_in("m2", 32); E2 = (int32_t)vs_in("e2", 32); }
  bool equal = M2 == M1 && E2 == E1; int64_t t1 = 8 * ((int64_t)M1 + 3) + M1 * E1, t2 = 8 * ((int64_t)M2 + 3) + (int64_t)M2 * E2; if (same) { vs_assume(t1 == t2); vs_assume(!equal); }
  int64_t lim = 1 << 14, probe = (int64_t)vs_range("probe", 0, (uint64_t)lim); MessageQueue a(M1, (int32_t)E1); vs_assert(a.create("q"), "create"); std::vector<Q1> m; int64_t used = 0; int k = (int)vs_param("k", 2);
  for (int i = 0; i < k && i < M1; i++) { int64_t s = (int64_t)vs_range("size", 1, (uint64_t)lim); vs_assume(s <= M1 * E1 - used); uint8_t* d = (uint8_t*)vs_lazy((uint64_t)s, "msg", 1); vs_assert(a.pushBack(d, s), "push"); used += s; m.push_back({d, s}); }
  if (!m.empty() && vs_param("consume", 1) && vs_choose(2, "consume")) { std::vector<Q1> f(m.begin(), m.begin() + 1); uint8_t* o = (uint8_t*)vs_lazy((uint64_t)f[0].n, "out", 0); int64_t w; vs_assert(a.popFront(o, f[0].n, w), "pop"); used -= f[0].n; m.erase(m.begin()); }
  { MessageQueue b(M2, E2); bool r = b.open("q"); if (equal) { vs_assert(r, "a queue of the same geometry was not opened"); vs_reach("equal"); } vs_reach(r ? "opened" : "refused");
    if (r) { const char* id = "a participant with another geometry changed queued messages"; vs_assert(b.processRWLock(10), "lock"); bool w; int64_t s = (int64_t)vs_range("size", 1, (uint64_t)lim); uint8_t* d = (uint8_t*)vs_lazy((uint64_t)s, "msg", 1); b.checkSpaceSufficient(s, w); if (b.pushBack(d, s)) m.push_back({d, s}); if (vs_choose(2, "take") && b.msgNumber() > 0) { uint8_t* o = (uint8_t*)vs_lazy((uint64_t)lim * 4, "out", 0); int64_t n = 0; if (b.popFront(o, lim * 4, n)) { vs_assert(n == m[0].n && o[probe < n ? probe : 0] == m[0].d[probe < n ? probe : 0], id); m.erase(m.begin()); } } b.processRWUnlock(); drain(a, m, probe, id); }
    else vs_assert(env.fds == 1 && env.maps == 1 && env.sems == 2, "a refused opening left handles"); b.close(); }
  drain(a, m, probe, "a participant with another geometry changed queued messages"); uint8_t one[1] = {7}; vs_assert(a.pushBack(one, 1), "the queue is unusable"); a.close(); noHandles(); vs_reach("done");
}
// memory that is smaller than what its header or its user claims
static void foreign() {
  int M = 1 + (int)vs_choose(3, "m"); int32_t E = (int32_t)vs_range("e", 1, 1 << 12); int64_t real = (int64_t)vs_range("real", 1, 1 << 16), head = vs_i64("head"); uint8_t* p = (uint8_t*)vs_lazy((uint64_t)real, "foreign", 1); if (real >= 8) memcpy(p, &head, 8); env_shm_place("q_shm", p, real); env_sem_place("q_rwlock", 1); env_sem_place("q_readsmp", 0);
  MessageQueue b(M, E); bool r = b.open("q"); int64_t want = 8 * ((int64_t)M + 3) + (int64_t)M * E; if (real < want) { vs_assert(!r, "memory smaller than the queue was opened"); vs_reach("small"); } b.close(); noHandles(); vs_reach("done");
}
// whole instances with different configurations
static void instances() {
  static const int cap[] = {1, 2, 5}, esz[] = {96, 160, 400}; int32_t x = (int32_t)vs_range("x", 0, 127); int ci = (int)vs_choose(3, "cap"), ei = (int)vs_choose(3, "esz"); { Veigar A, B; vs_assert(A.init("A", 2, 160) && B.init("B", (uint32_t)cap[ci], (uint32_t)esz[ei]), "init"); for (Veigar* v : {&A, &B}) v->bind("f", [](int32_t a) -> int32_t { return a; }); bool like = cap[ci] == 2 && esz[ei] == 160;
    int n = (int)vs_param("n", 3); for (int i = 0; i < n; i++) { Veigar& S = i & 1 ? B : A; auto f = S.asyncCall(i & 1 ? "A" : "B", 200, "f", x); bool ready = f->second.wait_for(std::chrono::milliseconds(400)) == std::future_status::ready; if (like) vs_assert(ready, "a call between like instances did not complete"); if (ready) { CallResult r = f->second.get(); int32_t v = -1; if (r.isSuccess()) { vs_assert(r.convertObject(v) && v == x, "a wrong result between unlike instances"); vs_reach("answered"); } else { vs_assert(!r.errorMessage.empty() && !like, "error"); vs_reach("refused"); } } S.releaseCall(f->first); }
    if (cap[ci] * esz[ei] >= 320) { CallResult r = B.syncCall("B", 1000, "f", x); int32_t v = -1; vs_assert(r.isSuccess() && r.convertObject(v) && v == x, "an instance does not work any more"); } CallResult r = A.syncCall("A", 1000, "f", x); int32_t v = -1; vs_assert(r.isSuccess() && r.convertObject(v) && v == x, "an instance does not work any more"); lockFree("A"); lockFree("B"); A.uninit(); B.uninit(); }
  noHandles(); vs_reach("done");
}
extern "C" void vs_main() { switch (vs_param("case", 0)) { case 0: pairs(); break; case 1: foreign(); break; case 2: instances(); break; } }
