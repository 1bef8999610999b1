// What the call timeout bounds (C21).
#include "rpc.h"
using namespace rpc;
namespace {
const int64_t MS = 1000000;
bool ready(std::shared_ptr<AsyncCallResult>& f) { return f->second.wait_for(std::chrono::seconds(0)) == std::future_status::ready; }
std::shared_ptr<AsyncCallResult> F; int cbs; int64_t cbAt; bool cbOk; ErrorCode cbCode; std::string cbMsg;
void issue(Veigar& A, bool cb, const char* to, uint32_t tmo, int32_t x) { cbs = 0; F.reset(); if (cb) A.asyncCall([](const CallResult& r) { cbs++; cbAt = env.now; cbOk = r.isSuccess(); cbCode = r.errCode; cbMsg = r.errorMessage; }, to, tmo, "f", x); else F = A.asyncCall(to, tmo, "f", x); }
bool over() { if (F) { if (cbs == 0 && ready(F)) { CallResult r = F->second.get(); cbs++; cbAt = env.now; cbOk = r.isSuccess(); cbCode = r.errCode; cbMsg = r.errorMessage; } } return cbs > 0; }
}
// a full queue, drained at some moment or never; any timeout
static void full() {
  int32_t x = (int32_t)vs_range("x", 0, 127); bool cb = vs_choose(2, "callback"); int64_t wait = vs_param("wait", 120); static const int64_t at[] = {-1, 0, 3, 33, 70, 119}; int64_t D = at[vs_choose(6, "drained at")]; uint32_t tmo;
  switch (vs_choose(3, "timeout")) { case 0: tmo = (uint32_t)vs_concrete(vs_range("ms", 31, (uint64_t)wait + 10)); break; case 1: tmo = vs_u32("tmo"); vs_assume(tmo > (uint32_t)wait + 10); break; default: { static const uint32_t t[] = {0x7fffffff, 0x80000000u, 0xffffffffu, 4294968u, 4294997u, 2147484u}; tmo = t[vs_choose(6, "big")]; } }
  { Veigar A; vs_assert(A.init("A", 2, 160), "init"); Raw t(2, 160); t.create("T"); env_sleep_ms(45); unsigned by = vs_choose(2, "full by"); int n = by ? 1 : 2; for (int i = 0; i < n; i++) vs_assert(Raw::put(t.call, Bytes(by ? 320 : 1, 7)), "fill"); Bytes m;
    int64_t t0 = env.now; issue(A, cb, "T", tmo, x); bool drained = false;
    env.preemptMask = P_SEM | P_MTX | P_COND; env.preemptBudget = (int)vs_param("preempt", 0);
    for (int64_t ms = 0; ms <= wait; ms++) { if (ms == D) { vs_assert(Raw::take(t.call, m, 0), "while a sender waits for room the target cannot take messages"); drained = true; } env_sleep_ms(1); int64_t el = env.now - t0; over(); if (!drained) { if (cbs && !(cbAt - t0 >= (int64_t)tmo * MS)) vs_fail("a call gave up before its timeout"); if (!cbs && !(el <= ((int64_t)tmo + 15) * MS)) vs_fail("a call did not give up after its timeout"); } }
    env.preemptBudget = 0; bool fitsIn = D >= 0 && (int64_t)tmo >= D + 25, out = D < 0 || (int64_t)tmo + 15 < D;
    if (out && tmo <= wait - 20) { vs_assert(cbs == 1 && !cbOk && cbCode == ErrorCode::TIMEOUT && !cbMsg.empty(), "a call that found no room did not fail with the timeout error"); vs_reach("timed out"); }
    if (out && tmo > wait + 10) vs_assert(cbs == 0, "a call gave up before its timeout");
    if (D < 0 && tmo > wait + 10) { vs_assert(Raw::take(t.call, m, 0), "while a sender waits for room the target cannot take messages"); env_sleep_ms(30); drained = true; fitsIn = true; out = false; }
    if (fitsIn) { vs_assert(cbs == 0, "a call failed although there was room within its timeout"); if (!by) vs_assert(Raw::take(t.call, m, 100), "junk"); vs_assert(Raw::take(t.call, m, 100), "a call that found room within its timeout was not delivered"); Call c = parseCall(m); vs_assert(c.ok && c.func == "f", "call"); Raw a(2, 160); vs_assert(a.openResp("A"), "open");
      env_sleep_ms(200); vs_assert(!over(), "a delivered call completed without an answer"); vs_assert(Raw::put(a.resp, respMsg(c.id, NIL(), Bytes{(uint8_t)x})), "answer"); env_sleep_ms(60); vs_assert(over() && cbOk, "an answer after the timeout was not accepted"); a.close(); vs_reach("delivered"); }
    if (out && cbs) { env_sleep_ms(50); t.call.processRWLock(100); int64_t k = t.call.msgNumber(); t.call.processRWUnlock(); vs_assert(k == n - (drained ? 1 : 0), "a call that failed was delivered all the same"); }
    if (F) A.releaseCall(F->first); F.reset(); cbMsg = std::string(); A.uninit(); t.close(); }
  noHandles(); vs_reach("done");
}
// a locked queue: the lock timeout decides, for all values set
static void locked() {
  int32_t x = (int32_t)vs_range("x", 0, 127); static const uint32_t ls[] = {1, 10, 30, 100}; uint32_t L = ls[vs_choose(4, "lock timeout")]; bool later = vs_choose(2, "later"); static const int64_t hs[] = {0, 5, 25, 60, 150}; int64_t H = hs[vs_choose(5, "held")];
  { Veigar A; vs_assert(A.init("A", 4, 128), "init"); A.setTimeoutOfRWLock(L); vs_assert(A.timeoutOfRWLock() == L, "lock timeout"); A.setTimeoutOfRWLock(0); vs_assert(A.timeoutOfRWLock() == L, "an impossible lock timeout was accepted"); if (later) { uint32_t y = vs_u32("any"); A.setTimeoutOfRWLock(y); vs_assert(A.timeoutOfRWLock() == (y ? y : L), "lock timeout"); A.setTimeoutOfRWLock(L); }
    Raw t(4, 128); t.create("T"); env_sleep_ms(45); if (H) vs_assert(t.call.processRWLock(0), "lock"); int64_t t0 = env.now; issue(A, false, "T", 200, x); 
    for (int64_t ms = 0; ms < 170; ms++) { if (H && ms == H) { t.call.processRWUnlock(); } env_sleep_ms(1); over(); }
    if (H == 0 || H + 2 < L) { Bytes m; vs_assert(cbs == 0, "a call failed although the lock became free within the lock timeout"); vs_assert(Raw::take(t.call, m, 0), "a call was not delivered although the lock became free within the lock timeout"); vs_reach("delivered"); }
    if (H > L + 2) { vs_assert(cbs == 1 && !cbOk && cbCode == ErrorCode::TIMEOUT, "a call did not fail with the timeout error although the lock was not to be had"); vs_assert(cbAt - t0 >= (int64_t)L * MS && cbAt - t0 <= ((int64_t)L + 10) * MS, "the lock timeout was not observed"); vs_reach("timed out"); }
    if (F) A.releaseCall(F->first); F.reset(); cbMsg = std::string(); A.uninit(); t.close(); lockFree("T"); }
  noHandles(); vs_reach("done");
}
// a slow target with a small queue: everybody who waits long enough is delivered
static int ran;
static void slow() {
  ran = 0; int n = (int)vs_param("n", 4); { Veigar A, B; vs_assert(A.init("A", 2, 160) && B.init("B", 2, 160), "init"); B.bind("f", [](int32_t a) -> int32_t { env_sleep_ms(40); ran++; return a; }); Veigar C; bool other = vs_choose(2, "two callers"); if (other) vs_assert(C.init("C", 2, 160), "init"); std::vector<std::shared_ptr<AsyncCallResult>> f; env.preemptMask = P_SEM | P_MTX | P_COND; env.preemptBudget = (int)vs_param("preempt", 0); for (int i = 0; i < n; i++) f.push_back((other && (i & 1) ? C : A).asyncCall("B", 1000, "f", i));
    env_sleep_ms(40 * n + 200); env.preemptBudget = 0; for (int i = 0; i < n; i++) { vs_assert(ready(f[i]), "a call that found room within its timeout was not delivered"); CallResult r = f[i]->second.get(); int v = -1; vs_assert(r.isSuccess() && r.convertObject(v) && v == i, "a call that found room within its timeout failed"); } vs_assert(ran == n, "not every call was executed once"); for (int i = 0; i < n; i++) (other && (i & 1) ? C : A).releaseCall(f[i]->first); A.uninit(); B.uninit(); C.uninit(); }
  noHandles(); vs_reach("done");
}
// answers wait for room as well, and do not hold up others forever
static void answers() {
  int32_t x = (int32_t)vs_range("x", 0, 127); static const int64_t at[] = {-1, 1, 40, 1000, 1450}; int64_t D = at[vs_choose(5, "drained at")];
  { Veigar B, A; vs_assert(B.init("B", 2, 160) && A.init("A", 2, 160), "init"); B.bind("f", [](int32_t a) -> int32_t { return a; }); Raw c(2, 160), b(2, 160); c.create("C"); vs_assert(b.openCall("B"), "open"); unsigned by = vs_choose(2, "full by"); int n = by ? 1 : 2; for (int i = 0; i < n; i++) vs_assert(Raw::put(c.resp, Bytes(by ? 320 : 1, 7)), "fill"); Bytes m;
    vs_assert(Raw::put(b.call, callMsg("id", "C", "f", Bytes{0x91, (uint8_t)x})), "call"); if (D >= 0) { env_sleep_ms(D); vs_assert(Raw::take(c.resp, m, 0), "while a sender waits for room the caller cannot take messages"); env_sleep_ms(60); if (!by) vs_assert(Raw::take(c.resp, m, 0), "junk"); vs_assert(Raw::take(c.resp, m, 0), "an answer that found room was not delivered"); vs_assert(m == respMsg("id", NIL(), Bytes{(uint8_t)x}), "answer"); vs_reach("delivered"); }
    else { env_sleep_ms(1600); if (!by) vs_assert(Raw::take(c.resp, m, 0), "junk"); vs_assert(Raw::take(c.resp, m, 0), "junk"); env_sleep_ms(50); vs_assert(!Raw::take(c.resp, m, 0), "an answer was delivered after its time"); vs_reach("given up"); }
    CallResult r = A.syncCall("B", 1000, "f", x); int32_t v = -1; vs_assert(r.isSuccess() && r.convertObject(v) && v == x, "another caller is held up"); A.uninit(); B.uninit(); b.close(); c.close(); }
  noHandles(); vs_reach("done");
}
extern "C" void vs_main() { switch (vs_param("case", 0)) { case 0: full(); break; case 1: locked(); break; case 2: slow(); break; case 3: answers(); break; } }
