// A response completes the call whose id it carries and no other.
#include "rpc.h"
#include <stdexcept>
using namespace rpc;
namespace {
const int MAXC = 4;
struct Out { std::string id; bool cb; std::shared_ptr<AsyncCallResult> f; int done = 0; bool ok = false; int64_t val = -1; std::string err; ErrorCode code; bool released = false;
  void set(CallResult& r) { done++; ok = r.isSuccess(); code = r.errCode; err = r.errorMessage; int32_t v; if (r.convertObject(v)) val = v; }
  void poll() { if (!cb && f && !done && !released && f->second.wait_for(std::chrono::seconds(0)) == std::future_status::ready) { CallResult r = f->second.get(); set(r); } } };
Out O[MAXC]; int nO;
void start(Veigar& A, int i, bool cb, const char* target) { O[i] = Out(); O[i].cb = cb; if (cb) A.asyncCall([i](const CallResult& r) { O[i].set(const_cast<CallResult&>(r)); }, target, 3000, "f", i); else O[i].f = A.asyncCall(target, 3000, "f", i); }
}
// n outstanding calls, any sequence of responses
static void permuted() {
  int n = (int)vs_param("n", 3), k = (int)vs_param("k", 4), kinds = (int)vs_param("cbmask", 2); bool rel = vs_param("release", 0);
  { Veigar A; vs_assert(A.init("A", 8, 128), "init"); Raw t(8, 128); t.create("T"); Raw a(8, 128); vs_assert(a.openResp("A"), "open"); Bytes m; nO = n;
    for (int i = 0; i < n; i++) { start(A, i, kinds >> i & 1, "T"); vs_assert(Raw::take(t.call, m, 1000), "call not delivered"); Call c = parseCall(m); vs_assert(c.ok && c.caller == "A" && c.func == "f" && c.args.size() == 2 && c.args[1] == i, "call message wrong"); O[i].id = c.id; if (O[i].f) vs_assert(O[i].f->first == c.id, "call id of the future differs from the wire"); }
    if (rel) { unsigned r = vs_choose(n, "released"); O[r].released = true; A.releaseCall(O[r].id); A.releaseCall("nobody"); }
    int want[MAXC]; int32_t wv[MAXC]; bool we[MAXC]; uint8_t wc[MAXC]; for (int i = 0; i < n; i++) want[i] = 0;
    for (int j = 0; j < k; j++) {
      unsigned to = vs_choose(n + 2, "to"); std::string id = to < (unsigned)n ? O[to].id : to == (unsigned)n ? O[0].id.substr(0, O[0].id.size() - 1) : O[0].id + "0";
      int32_t v = vs_i32("value"); bool e = vs_choose(2, "error"); uint8_t ch = (uint8_t)vs_range("text", 1, 127); Bytes er = encS(std::string("E") + (char)ch);
      vs_assert(Raw::put(a.resp, e ? respMsg(id, er, NIL()) : respMsg(id, NIL(), encI(v))), "put"); env_sleep_ms(40);
      if (to < (unsigned)n && !want[to] && !O[to].released) { want[to] = 1; wv[to] = v; we[to] = e; wc[to] = ch; }
      for (int i = 0; i < n; i++) { O[i].poll(); vs_assert(O[i].done == want[i], want[i] ? "a call was not completed exactly once by its response" : "a call was completed by a response that is not its own"); if (!want[i]) continue;
        vs_assert(O[i].ok == !we[i], "error and result mixed up"); if (we[i]) vs_assert(O[i].err.size() == 2 && O[i].err[1] == (char)wc[i], "a call got the error of another response"); else vs_assert(O[i].val == wv[i], "a call got the result of another response"); } }
    if (want[0] && want[n - 1]) vs_reach("answered");
    // what is still open gets its own answer now
    for (int i = n - 1; i >= 0; i--) if (!want[i] && !O[i].released) { int32_t v = vs_i32("late"); Raw::put(a.resp, respMsg(O[i].id, NIL(), encI(v))); env_sleep_ms(40); O[i].poll(); vs_assert(O[i].done == 1 && O[i].ok && O[i].val == v, "an open call was lost"); }
    for (int i = 0; i < n; i++) if (O[i].f && !O[i].released) A.releaseCall(O[i].id);
    a.close(); A.uninit(); lockFree("A"); t.close(); for (int i = 0; i < n; i++) { vs_assert(O[i].done <= 1, "completed twice"); O[i] = Out(); } }
  noHandles(); vs_reach("done");
}
// answers may arrive before the sending thread has finished with the call
static Raw* peer; static int served;
static void instant() {
  served = 0; int n = (int)vs_param("n", 2); { Veigar A; Raw t(8, 128); t.create("T"); peer = &t; vs_assert(A.init("A", 8, 128), "init"); static int N; N = n; nO = n;
    int th = env_spawn([](void*) { Raw a(8, 128); vs_assert(a.openResp("A"), "open"); for (int i = 0; i < N; i++) { Bytes m; if (!Raw::take(peer->call, m, 3000)) vs_fail("call not delivered"); Call c = parseCall(m); vs_assert(c.ok && c.args.size() == 2, "malformed call"); Raw::put(a.resp, respMsg(c.id, NIL(), encI(100 + c.args[1]))); served++; } a.close(); }, nullptr);
    env.preemptMask = (int)vs_param("mask", P_SEM | P_MTX); env.preemptBudget = (int)vs_param("preempt", 2); env.switchBudget = (int)vs_param("switch", 0);
    for (int i = 0; i < n; i++) start(A, i, vs_param("cbmask", 2) >> i & 1, "T");
    env_join(th); env.preemptBudget = 0; env.switchBudget = 0; env_sleep_ms(100); for (int i = 0; i < n; i++) { O[i].poll(); vs_assert(O[i].done == 1, "a call whose answer was instant is not completed"); vs_assert(O[i].ok && O[i].val == 100 + i, "a call got a wrong result"); if (O[i].f) A.releaseCall(O[i].f->first); }
    A.uninit(); t.close(); for (int i = 0; i < n; i++) O[i] = Out(); }
  noHandles(); vs_reach("done");
}
// several callers and dispatch threads at once: everybody gets the result of its own argument
static Veigar *VA, *VB; static int32_t arg[4];
static void crowd() {
  int mode = (int)vs_param("mode", 0); { Veigar B; vs_assert(B.init("B", 8, 128), "init"); B.bind("f", [](int32_t a) -> int32_t { if (a & 1) throw std::runtime_error("odd"); return a; }); Veigar A; vs_assert(A.init("A", 8, 128), "init"); VA = &A; VB = &B; int n = (int)vs_param("n", 2); static int ok[4]; 
    for (int i = 0; i < n; i++) { arg[i] = (int32_t)vs_range("arg", 0, 127); ok[i] = 0; }
    env.preemptMask = (int)vs_param("mask", P_SEM); env.preemptBudget = (int)vs_param("preempt", 2); env.switchBudget = (int)vs_param("switch", 0);
    int t[4]; static int idx[4] = {0, 1, 2, 3}; static bool same; same = mode == 0;
    for (int i = 0; i < n; i++) t[i] = env_spawn([](void* p) { int k = *(int*)p; Veigar& c = (k && !same) ? *VB : *VA; CallResult r = c.syncCall("B", 3000, "f", arg[k]); if (arg[k] & 1) vs_assert(!r.isSuccess() && r.errorMessage.find("odd") != std::string::npos, "a call got the outcome of another call"); else { int32_t v = -1; vs_assert(r.isSuccess(), "a call failed although its function returned"); vs_assert(r.convertObject(v) && v == arg[k], "a call got the result of another call"); } ok[k]++; }, &idx[i]);
    for (int i = 0; i < n; i++) env_join(t[i]); for (int i = 0; i < n; i++) vs_assert(ok[i] == 1, "caller"); env.preemptBudget = 0; A.uninit(); B.uninit(); lockFree("A"); lockFree("B"); }
  noHandles(); vs_reach("done");
}
extern "C" void vs_main() { switch (vs_param("case", 0)) { case 0: permuted(); break; case 1: instant(); break; case 2: crowd(); break; } }
