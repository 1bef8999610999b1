// The queue lock under traffic (C05) and the processing of every delivered message (C06).
#include "rpc.h"
#include <stdexcept>
using namespace rpc;
namespace {
const int64_t MS = 1000000; int ran; int32_t sum; int cap, esz;
const char* QN4[] = {"A_call", "A_resp", "B_call", "B_resp", "P_call", "P_resp"};
// somebody else holds the lock of a queue for a while; nobody may touch the queue meanwhile
struct Hold { const char* q; int64_t at, dur; bool ok; } H[2]; int hThr[2]; int nH;
void holder(void* p) { Hold& h = *(Hold*)p; MessageQueue q(cap, esz); env_sleep_ms(h.at); if (!q.open(h.q)) { h.ok = false; return; } if (!q.processRWLock(2000)) vs_fail("lock not obtained within two seconds"); env.noPreempt++; std::string s = std::string(h.q) + "_shm"; int64_t n = env_shm_size(s.c_str()); Bytes b(env_shm_data(s.c_str()), env_shm_data(s.c_str()) + n); env.noPreempt--;
  env_sleep_ms(h.dur); env.noPreempt++; uint8_t* d = env_shm_data(s.c_str()); bool same = memcmp(d, b.data(), (size_t)n) == 0; env.noPreempt--; vs_assert(same, "a queue changed while somebody else held its lock"); vs_assert(env_sem_value((std::string(h.q) + "_rwlock").c_str()) == 0, "the lock was given back by somebody who did not hold it"); q.processRWUnlock(); q.close(); h.ok = true; }
void hold(int which) { static const int64_t at[] = {0, 1, 29}, du[] = {5, 31, 70, 200}; Hold& h = H[nH]; h.q = QN4[which]; h.at = at[vs_choose((unsigned)vs_param("ats", 3), "at")]; h.dur = du[vs_choose((unsigned)vs_param("durs", 4), "dur")]; h.ok = false; hThr[nH] = env_spawn(holder, &H[nH]); nH++; }
void joinHolders() { for (int i = 0; i < nH; i++) env_join(hThr[i]); nH = 0; }
void binds(Veigar& v) { v.bind("f", [](int32_t a) -> int32_t { ran++; sum += a; return a; }); v.bind("e", [](std::string s) -> std::string { ran++; return s; }); v.bind("t", [](int32_t) -> int32_t { ran++; throw std::runtime_error("no"); }); v.bind("n", []() -> std::string { ran++; return std::string(1000, 'r'); }); }
void watch() { env.checkBinary = true; env.checkOwner = true; }
void finalCall(Veigar& A, const char* to, int32_t x) { CallResult r = A.syncCall(to, 3000, "f", x); int32_t v = -1; vs_assert(r.isSuccess() && r.convertObject(v) && v == x, "after the traffic a call does not work any more"); }
void allFree() { lockFree("A"); lockFree("B"); }
}
// C05: lock holders and ordinary calls
static void lockHolders() {
  ran = sum = nH = 0; cap = (int)vs_param("cap", 4); esz = 64; int32_t x = (int32_t)vs_range("x", 0, 127); watch();
  { Veigar A, B; vs_assert(A.init("A", cap, esz) && B.init("B", cap, esz), "init"); binds(A); binds(B);
    unsigned q = vs_choose(4, "queue"); hold((int)q); if (vs_param("two", 0)) hold((int)(q ^ 2)); env.preemptMask = (int)vs_param("mask", P_SEM); env.preemptBudget = (int)vs_param("preempt", 1);
    int n = (int)vs_param("n", 2); std::vector<std::shared_ptr<AsyncCallResult>> f; for (int i = 0; i < n; i++) f.push_back((i & 1 ? B : A).asyncCall(i & 1 ? "A" : "B", 150, "f", x));
    env_sleep_ms(400); joinHolders(); env.preemptBudget = 0; env_sleep_ms(100);
    allFree(); for (int i = 0; i < n; i++) { vs_assert(f[i]->second.wait_for(std::chrono::seconds(0)) == std::future_status::ready || vs_param("two", 0), "a call did not complete"); }
    finalCall(A, "B", x); finalCall(B, "A", x); for (int i = 0; i < n; i++) (i & 1 ? B : A).releaseCall(f[i]->first); allFree(); A.uninit(); B.uninit(); allFree(); }
  noHandles(); vs_reach("done");
}
// C05: every error path of senders and dispatchers
static void errorPaths() {
  ran = sum = nH = 0; cap = 2; esz = 160; watch(); int32_t x = (int32_t)vs_range("x", 0, 127);
  { Veigar A, B; vs_assert(A.init("A", cap, esz) && B.init("B", cap, esz), "init"); binds(A); binds(B); Raw t(cap, esz), a(cap, esz); vs_assert(t.openCall("B") && t.openResp("B") && a.openCall("A") && a.openResp("A"), "open");
    env_sleep_ms(50); int n = (int)vs_param("n", 2); env.preemptMask = P_SEM; env.preemptBudget = (int)vs_param("preempt", 0);
    for (int i = 0; i < n; i++) { CallResult r; switch (vs_choose(11, "event")) {
      case 0: r = A.syncCall("B", 200, "e", std::string(400, 'x')); vs_assert(!r.isSuccess(), "a message larger than the queue was sent"); break;
      case 1: { auto f = A.asyncCall("B", 200, "n"); env_sleep_ms(100); A.releaseCall(f->first); break; } // answer too large to be sent
      case 2: { Bytes m(5, 0xc1); Raw::put(t.call, m); env_sleep_ms(50); break; }
      case 3: { Bytes m(5, 0xc1); Raw::put(a.resp, m); env_sleep_ms(50); break; }
      case 4: { Raw::put(a.resp, respMsg("unknown", NIL(), NIL())); env_sleep_ms(50); break; }
      case 5: t.call.notifyRead(); env_sleep_ms(50); break;      // signal without message
      case 6: a.resp.notifyRead(); env_sleep_ms(50); break;
      case 7: r = A.syncCall("B", 200, "t", x); vs_assert(!r.isSuccess(), "throw"); break;
      case 8: { env_alloc.count = 1; env_alloc.min = 60000; r = A.syncCall("B", 200, "e", std::string(70, 'y')); env_alloc.count = 0; break; }
      case 9: { vs_assert(t.call.processRWLock(50), "lock"); auto f = A.asyncCall("B", 100, "f", x); env_sleep_ms(80); t.call.processRWUnlock(); env_sleep_ms(60); A.releaseCall(f->first); break; }
      case 10: { vs_assert(a.resp.processRWLock(50), "lock"); auto f = A.asyncCall("B", 100, "f", x); env_sleep_ms(80); a.resp.processRWUnlock(); env_sleep_ms(60); A.releaseCall(f->first); break; } }
      allFree(); }
    env.preemptBudget = 0; finalCall(A, "B", x); finalCall(B, "A", x); t.close(); a.close(); A.uninit(); B.uninit(); allFree(); }
  noHandles(); vs_reach("done");
}
// C05: contended full queues
static void contended() {
  ran = sum = nH = 0; cap = (int)vs_param("cap", 1); esz = 96; watch(); int n = (int)vs_param("n", 3); int32_t x = (int32_t)vs_range("x", 0, 31);
  { Veigar A, B; vs_assert(A.init("A", cap, esz) && B.init("B", cap, esz), "init"); binds(A); binds(B); env.preemptMask = (int)vs_param("mask", P_SEM | P_MQ); env.preemptBudget = (int)vs_param("preempt", 1); env.switchBudget = (int)vs_param("switch", 0);
    std::vector<std::shared_ptr<AsyncCallResult>> f; for (int i = 0; i < n; i++) f.push_back((i % 3 == 2 ? B : A).asyncCall("B", 1000, "f", x)); env_sleep_ms(300); env.preemptBudget = env.switchBudget = 0;
    vs_assert(ran == n && sum == n * x, "a call was not executed exactly once"); for (int i = 0; i < n; i++) { vs_assert(f[i]->second.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "a call did not complete"); CallResult r = f[i]->second.get(); int32_t v = -1; vs_assert(r.isSuccess() && r.convertObject(v) && v == x, "wrong result"); (i % 3 == 2 ? B : A).releaseCall(f[i]->first); }
    allFree(); A.uninit(); B.uninit(); allFree(); }
  noHandles(); vs_reach("done");
}
// C06: messages put into a queue whose dispatchers cannot get the lock at first, or are woken for nothing
static Raw *RT, *RA;
static void woken() {
  ran = sum = nH = 0; cap = 8; esz = (int)vs_param("esize", 64); int k = (int)vs_param("k", 2); bool resp = vs_param("resp", 0); static int done; done = 0;
  { Veigar B; vs_assert(B.init("B", cap, esz), "init"); binds(B); Raw p(cap, esz); p.create("P"); Raw t(cap, esz); vs_assert(t.openCall("B") && t.openResp("B"), "open"); RT = &t; RA = &p; static int K; K = k; static std::vector<std::string> ids; ids.clear();
    if (resp) for (int i = 0; i < k; i++) { B.asyncCall([](const CallResult& r) { if (r.isSuccess()) done++; }, "P", 1000, "f", i); Bytes m; vs_assert(Raw::take(p.call, m, 1000), "deliver"); ids.push_back(parseCall(m).id); }
    static bool R; R = resp; int extra = (int)vs_choose((unsigned)vs_param("spurious", 2), "spurious"); if (vs_param("hold", 1)) hold(resp ? 3 : 2);
    env.preemptMask = (int)vs_param("mask", P_SEM); env.preemptBudget = (int)vs_param("preempt", 1); env.stallBudget = (int)vs_param("stall", 0); env.stallMs = 40;
    for (int i = 0; i < extra; i++) { (resp ? t.resp : t.call).notifyRead(); if (vs_choose(2, "pause")) env_sleep_ms(35); }
    int th = env_spawn([](void*) { for (int i = 0; i < K; i++) { Enc a; a.arr(1).fix((unsigned)i + 1); if (!Raw::put(R ? RT->resp : RT->call, R ? respMsg(ids[i], NIL(), encI(i)) : callMsg("i" + std::to_string(i), "P", "f", a.b))) vs_fail("put failed"); } }, nullptr);
    env_join(th); joinHolders(); env.preemptBudget = 0; env_sleep_ms(150);
    if (resp) vs_assert(done == k, "a delivered response was not processed"); else { vs_assert(ran == k, "a delivered call was not processed"); int got = 0; Bytes m; while (Raw::take(p.resp, m, 0)) got++; vs_assert(got == k, "a processed call was not answered"); }
    vs_assert((resp ? t.resp : t.call).msgNumber() == 0, "a message stayed in the queue"); t.close(); B.uninit(); lockFree("B"); p.close(); ids = std::vector<std::string>(); }
  noHandles(); vs_reach("done");
}
// C06: whole instances, n calls at once, any small number of preemptions
static void fullPath() {
  ran = sum = nH = 0; cap = 4; esz = 96; int n = (int)vs_param("n", 2); int32_t x = (int32_t)vs_range("x", 0, 31); { Veigar A, B; vs_assert(A.init("A", cap, esz) && B.init("B", cap, esz), "init"); binds(B);
    Raw qa(cap, esz), qb(cap, esz); vs_assert(qa.openResp("A") && qb.openCall("B"), "open"); env.preemptMask = (int)vs_param("mask", P_SEM | P_MTX); env.preemptBudget = (int)vs_param("preempt", 1); env.stallBudget = (int)vs_param("stall", 1); bool stall = env.stallBudget > 0; env.stallMs = 40; static int done, undelivered; done = undelivered = 0;
    for (int i = 0; i < n; i++) { if (i && vs_param("gap", 0)) env_sleep_ms(vs_param("gap", 0)); A.asyncCall([](const CallResult& r) { if (r.isSuccess()) done++; else undelivered++; }, "B", 1000, "f", x); }
    env_sleep_ms(300); env.preemptBudget = 0; env_sleep_ms(100); vs_assert(ran == n - undelivered && sum == ran * x, "a delivered call was not processed"); vs_assert(qa.resp.msgNumber() == 0 && qb.call.msgNumber() == 0, "a message stayed in the queue"); if (!stall) vs_assert(done == n, "a delivered response was not processed"); qa.close(); qb.close(); A.uninit(); B.uninit(); }
  noHandles(); vs_reach("done");
}
// C06: sizes around the receive buffer and the expected size
static void sizes() {
  ran = sum = 0; cap = 4; esz = 40000; static const int sz[] = {1, 39900, 40000, 65300, 65535, 65536, 65600, 131072, 150000}; { Veigar A, B; vs_assert(A.init("A", cap, esz) && B.init("B", cap, esz), "init"); binds(B); int n = 2; for (int i = 0; i < n; i++) { int s = sz[vs_choose(9, "size")]; CallResult r = A.syncCall("B", 1000, "e", std::string((size_t)s, 'q')); vs_assert(r.isSuccess(), "a large call was not processed"); std::string o; vs_assert(r.convertObject(o) && (int)o.size() == s, "large result wrong"); vs_assert(ran == i + 1, "not run once"); } A.uninit(); B.uninit(); allFree(); }
  noHandles(); vs_reach("done");
}
// C05, C06: no memory for a message larger than the receive buffer, any n-th allocation of that size
static void noMemory() {
  ran = sum = nH = 0; cap = 4; esz = 40000; watch(); bool resp = vs_param("resp", 0); static int done, bad; done = bad = 0;
  { Veigar B; vs_assert(B.init("B", cap, esz), "init"); binds(B); Raw p(cap, esz); p.create("P"); Raw t(cap, esz); vs_assert(t.openCall("B") && t.openResp("B"), "open"); MessageQueue& q = resp ? t.resp : t.call; std::string ids[3]; Bytes m[3];
    for (int i = 0; i < 3; i++) { if (resp) { B.asyncCall([](const CallResult& r) { std::string o; if (r.isSuccess() && const_cast<CallResult&>(r).convertObject(o)) done++; else bad++; }, "P", 4000, "f", i); Bytes c; vs_assert(Raw::take(p.call, c, 1000), "deliver"); ids[i] = parseCall(c).id; }
      Bytes big{0xdb}; size_t n = i == 2 ? 3 : 70000; for (int k = 3; k >= 0; k--) big.push_back((uint8_t)(n >> 8 * k)); big.resize(5 + n, 'b'); Enc a; a.arr(1).raw(big); m[i] = resp ? respMsg(ids[i], NIL(), big) : callMsg("i" + std::to_string(i), "P", "e", a.b); }
    env_sleep_ms(50); env_alloc.min = 60000; env_alloc.count = 1 + vs_choose(4, "nth"); env_alloc.failed = 0; vs_assert(Raw::put(q, m[0]), "put"); env_sleep_ms(200); bool failed = env_alloc.failed; env_alloc.count = 0; if (failed) vs_reach("failed");
    vs_assert(env_sem_value(resp ? "B_resp_rwlock" : "B_call_rwlock") == 1, "lock not free although nobody uses the queue"); bool lost = vs_choose(2, "again"); if (lost) { vs_assert(Raw::put(q, m[1]), "put"); env_sleep_ms(100); }
    vs_assert(Raw::put(q, m[2]), "put"); env_sleep_ms(200); vs_assert(q.processRWLock(10), "lock not free although nobody uses the queue"); vs_assert(q.msgNumber() == 0, "a message stayed in the queue"); q.processRWUnlock(); int n = lost ? 3 : 2; int all = resp ? done + bad : ran; vs_assert(all == n || (failed && all == n - 1), "a delivered message was not processed"); if (!failed) vs_assert((resp ? done : ran) == n, "a delivered message was not processed");
    t.close(); lockFree("B"); B.uninit(); lockFree("B"); p.close(); }
  noHandles(); vs_reach("done");
}
// C05: a sender waits for room in a full queue while somebody else takes the lock, possibly for longer than the lock timeout
static void fullAndLocked() {
  ran = sum = nH = 0; cap = 1; esz = 96; watch(); bool resp = vs_param("resp", 0) != 0; int32_t x = (int32_t)vs_range("x", 0, 127);
  { Veigar B; vs_assert(B.init("B", cap, esz), "init"); binds(B); Raw p(cap, esz), t(cap, esz); p.create("P"); vs_assert(t.openCall("B"), "open"); MessageQueue& q = resp ? p.resp : p.call; Bytes m(5, 0xc1); vs_assert(Raw::put(q, m), "fill");
    env.preemptMask = P_SEM; env.preemptBudget = (int)vs_param("preempt", 1); std::shared_ptr<AsyncCallResult> f; Enc a; a.arr(1).b.push_back((uint8_t)x); Bytes got;
    if (resp) vs_assert(Raw::put(t.call, callMsg("i", "P", "f", a.b)), "put"); else f = B.asyncCall("P", 300, "f", x);
    if (vs_choose(2, "later")) env_sleep_ms(7); hold(resp ? 5 : 4); env_sleep_ms(vs_choose(2, "drain") ? 20 : 4000); joinHolders(); lockFree("P");
    vs_assert(Raw::take(q, got, 500) && got == m, "a queued message changed"); env_sleep_ms(200); joinHolders(); env.preemptBudget = 0; lockFree("P");
    bool there = Raw::take(q, got, 100); if (!resp && !there) { vs_assert(f->second.wait_for(std::chrono::seconds(0)) == std::future_status::ready && !f->second.get().isSuccess(), "a call that was not delivered was not completed as failed"); vs_reach("given up"); } if (there) vs_reach("delivered");
    if (resp) { vs_assert(Raw::put(t.call, callMsg("j", "P", "f", a.b)), "put"); } else f = B.asyncCall("P", 300, "f", x);
    vs_assert(Raw::take(q, got, 1000), "after the traffic the queue is not served any more"); lockFree("P"); t.close(); B.uninit(); p.close(); }
  noHandles(); vs_reach("done");
}
extern "C" void vs_main() { switch (vs_param("case", 0)) { case 0: lockHolders(); break; case 1: errorPaths(); break; case 2: contended(); break; case 3: woken(); break; case 4: fullPath(); break; case 5: sizes(); break; case 6: noMemory(); break; case 7: fullAndLocked(); break; } }
