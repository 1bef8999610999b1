// Every call completes exactly once, whatever happens to it.
#include "rpc.h"
#include <stdexcept>
using namespace rpc;
namespace {
struct Res { int n = 0; bool ok = false; ErrorCode code = ErrorCode::SUCCESS; std::string msg; int32_t val = -1; int64_t at = 0; void set(CallResult& r) { n++; ok = r.isSuccess(); code = r.errCode; msg = r.errorMessage; int32_t v; if (r.convertObject(v)) val = v; at = env.now; } };
enum { PROMISE, CALLBACK, SYNC };
struct One { int kind; Res r; std::shared_ptr<AsyncCallResult> f; int thrower = 0; std::string id;
  void poll() { if (kind == PROMISE && f && r.n == 0 && f->second.valid() && f->second.wait_for(std::chrono::seconds(0)) == std::future_status::ready) { CallResult c = f->second.get(); r.set(c); } } };
One K[6]; Veigar* V; std::string tgt; uint32_t tmo; std::string fn = "f"; int32_t av;
void issue(Veigar& A, int i) { One& k = K[i]; if (k.kind == PROMISE) { k.f = A.asyncCall(tgt, tmo, fn, av); vs_assert(k.f && k.f->second.valid(), "no future"); k.id = k.f->first; }
  else if (k.kind == CALLBACK) A.asyncCall([i](const CallResult& r) { K[i].r.set(const_cast<CallResult&>(r)); vs_assert(K[i].r.n == 1, "a callback ran twice"); if (K[i].thrower == 1) throw std::runtime_error("callback"); if (K[i].thrower == 2) throw 5; }, tgt, tmo, fn, av);
  else { CallResult r = A.syncCall(tgt, tmo, fn, av); k.r.set(r); } }
const int64_t MS = 1000000;
}
// every reason for a call not to be delivered, and the ordinary outcomes
static void causes() {
  for (auto& k : K) k = One(); int kind = (int)vs_choose(3, "kind"), cause = (int)vs_choose(12, "cause"); K[0].kind = kind; if (kind == CALLBACK) K[0].thrower = (int)vs_choose(3, "throws"); tmo = 200; fn = "f"; av = (int32_t)vs_i32("arg"); int64_t lo = 0, hi = 400 * MS; bool ok = false, may = false; ErrorCode want = ErrorCode::FAILED; bool anyFail = false;
  { Veigar A, B; vs_assert(A.init("A", 4, 64), "init"); bool bUp = cause != 0 && cause != 6; if (bUp) vs_assert(B.init("B", 4, 64), "init"); B.bind("f", [](int32_t a) -> int32_t { return a; }); B.bind("t", [](int32_t a) -> int32_t { if (a == a) throw std::runtime_error("thrown"); return a; });
  tgt = "B"; Raw h(4, 64), t(4, 64), ra(4, 64); Bytes big;
  switch (cause) {
    case 0: anyFail = true; break;                                              // nobody there
    case 1: ok = true; break;
    case 2: fn = "t"; want = ErrorCode::SUCCESS; may = true; break;             // the function throws: delivered, with an error text
    case 3: fn = "nobody"; want = ErrorCode::SUCCESS; may = true; break;
    case 4: B.uninit(); t.create("B"); vs_assert(t.call.processRWLock(100), "lock"); want = ErrorCode::TIMEOUT; break;          // lock never free
    case 5: B.uninit(); t.create("B"); for (int i = 0; i < 4; i++) Raw::put(t.call, Bytes(10, 1)); want = ErrorCode::TIMEOUT; lo = 199 * MS; break; // queue stays full
    case 6: tgt = vs_choose(2, "bad") ? "" : "a/b"; anyFail = true; break;      // impossible name
    case 7: fn = std::string(300, 'x'); anyFail = true; break;                    // larger than the whole queue
    case 8: tgt = "A"; A.bind("f", [](int32_t a) -> int32_t { return a; }); ok = true; break; // itself
    case 9: A.uninit(); anyFail = true; break;                                    // not running
    case 10: B.uninit(); t.create("B"); want = ErrorCode::FAILED; break;       // delivered but never answered, caller shuts down
    case 11: B.uninit(); anyFail = true; break;                                   // target has gone
  }
  int64_t t0 = env.now;
  if (cause == 10 && kind == SYNC) { V = &A; int th = env_spawn([](void*) { issue(*V, 0); }, nullptr); env_sleep_ms(100); vs_assert(K[0].r.n == 0, "an unanswered call returned"); A.uninit(); env_join(th); anyFail = true; }
  else { issue(A, 0); env_sleep_ms(cause == 9 ? 1 : 400); K[0].poll(); if (cause == 10) { vs_assert(K[0].r.n == 0, "an unanswered call completed"); A.uninit(); K[0].poll(); anyFail = true; } }
  Res& r = K[0].r; vs_assert(r.n == 1, r.n ? "completed more than once" : "a call never completed");
  if (ok) { vs_assert(r.ok && r.val == av, "a call that was answered did not succeed"); vs_reach("ok"); }
  else { vs_assert(!r.ok && !r.msg.empty(), "a call that was not executed was reported as successful"); if (!anyFail) vs_assert(r.code == want, "wrong kind of failure"); else vs_assert(r.code != ErrorCode::SUCCESS, "an undelivered call reported as delivered"); vs_assert(r.at - t0 >= lo, "gave up too early"); if (cause != 10) vs_assert(r.at - t0 <= hi, "completed too late"); vs_reach(may ? "error" : "failed"); }
  // the instance still works
  if (cause == 4) t.call.processRWUnlock(); if (cause == 4 || cause == 5 || cause == 10) t.close(); if (cause == 9 || cause == 10) vs_assert(A.init("A", 4, 64), "cannot start again");
  if (cause != 9 && cause != 10) { A.bind("self", [](int32_t a) -> int32_t { return a; }); CallResult c = A.syncCall("A", 2000, "self", av); int32_t v = 0; vs_assert(c.isSuccess() && c.convertObject(v) && v == av, "a later call failed"); }
  if (K[0].f) A.releaseCall(K[0].id); A.uninit(); B.uninit(); K[0].poll(); vs_assert(r.n == 1, "completed again at shutdown"); lockFree("A"); lockFree("B"); for (auto& k : K) k = One(); }
  noHandles(); vs_reach("done");
}
// calls in flight while the caller shuts down at an arbitrary moment
static void shutdown() {
  for (auto& k : K) k = One(); int n = (int)vs_param("n", 2), cap = (int)vs_param("cap", 4); tgt = "B"; tmo = 300; fn = "f"; av = (int32_t)vs_range("arg", 0, 127); bool answer = vs_param("answer", 1);
  { Veigar A; std::unique_ptr<Veigar> B; Raw t(cap, 64); if (answer) { B.reset(new Veigar); vs_assert(B->init("B", cap, 64), "init"); B->bind("f", [](int32_t a) -> int32_t { return a; }); } else t.create("B"); vs_assert(A.init("A", cap, 64), "init"); V = &A; static int N; N = n;
    int kinds = (int)vs_param("kinds", 9); for (int i = 0; i < n; i++, kinds /= 3) K[i].kind = kinds % 3;
    env.preemptMask = (int)vs_param("mask", P_SEM | P_MTX | P_COND); env.preemptBudget = (int)vs_param("preempt", 2); env.switchBudget = (int)vs_param("switch", 0);
    int th = -1; if (vs_param("threaded", 1)) th = env_spawn([](void*) { for (int i = 0; i < N; i++) issue(*V, i); }, nullptr); else for (int i = 0; i < n; i++) issue(A, i);
    if (vs_param("wait", 1)) { unsigned w = vs_choose((unsigned)vs_param("whens", 9), "when"); static const int64_t at[] = {1, 6, 40}; if (w < 3) env_sleep_ms(at[w]); else for (unsigned i = 3; i < w; i++) env_yield(); }
    A.uninit(); int64_t t1 = env.now; if (th >= 0) env_join(th); vs_assert(env.now - t1 <= 1000 * MS, "callers stuck after shutdown"); env.preemptBudget = env.switchBudget = 0;
    for (int i = 0; i < n; i++) { K[i].poll(); vs_assert(K[i].r.n == 1, K[i].r.n ? "completed more than once" : "a call was left incomplete by the shutdown"); if (K[i].r.ok) { vs_assert(K[i].r.val == av && answer, "wrong result"); vs_reach("answered"); } else { vs_assert(!K[i].r.msg.empty(), "failure without text"); vs_reach("failed"); } }
    if (B) B->uninit(); else t.close(); env_sleep_ms(50); for (int i = 0; i < n; i++) vs_assert(K[i].r.n == 1, "completed again"); lockFree("A"); lockFree("B"); for (auto& k : K) k = One(); }
  noHandles(); vs_assert(env_threads_alive() == 1, "threads left"); vs_reach("done");
}
// callbacks that call again, release, or shut nothing down: re-entrancy
static int depth; static int32_t seen[4];
static void reentrant() {
  depth = 0; int mode = (int)vs_choose(4, "mode"); int32_t x = (int32_t)vs_range("x", 0, 127); { Veigar B; vs_assert(B.init("B", 8, 128), "init"); B.bind("f", [](int32_t a) -> int32_t { return a; }); Veigar A; vs_assert(A.init("A", 8, 128), "init"); V = &A; static int M; M = mode;
    env.preemptMask = P_SEM | P_MTX; env.preemptBudget = (int)vs_param("preempt", 1);
    A.asyncCall([x](const CallResult& r) { vs_assert(r.isSuccess(), "first call"); depth++; if (M == 0) V->asyncCall([](const CallResult& q) { vs_assert(q.isSuccess(), "second call"); depth++; }, "B", 2000, "f", x); else if (M == 1) { auto f = V->asyncCall("B", 2000, "f", x); V->releaseCall(f->first); depth++; } else if (M == 2) { V->asyncCall([](const CallResult& q) { vs_assert(!q.isSuccess(), "absent"); depth++; }, "nobody", 2000, "f", x); } else { V->asyncCall([](const CallResult& q) { depth++; if (!q.isSuccess()) throw 1; throw std::runtime_error("x"); }, "B", 2000, "f", x); throw 2; } }, "B", 2000, "f", x);
    env_sleep_ms(200); vs_assert(depth == 2, "a nested call did not complete exactly once"); env.preemptBudget = 0; CallResult r = A.syncCall("B", 2000, "f", x); int32_t v = -1; vs_assert(r.isSuccess() && r.convertObject(v) && v == x, "later call"); A.uninit(); B.uninit(); vs_assert(depth == 2, "again"); lockFree("A"); lockFree("B"); }
  noHandles(); vs_reach("done");
}
// duplicate and late responses
static void duplicates() {
  for (auto& k : K) k = One(); tgt = "T"; tmo = 1000; av = 1; fn = "f"; { Veigar A; vs_assert(A.init("A", 8, 128), "init"); Raw t(8, 128); t.create("T"); Raw a(8, 128); a.openResp("A"); K[0].kind = PROMISE; K[1].kind = CALLBACK; std::string id[2];
    for (int i = 0; i < 2; i++) { issue(A, i); Bytes m; vs_assert(Raw::take(t.call, m, 1000), "deliver"); id[i] = parseCall(m).id; }
    env.preemptMask = P_MTX | P_SEM; env.preemptBudget = (int)vs_param("preempt", 1); int k = (int)vs_param("k", 4); int first[2] = {-1, -1}; int32_t val[8]; int dest[8];
    for (int j = 0; j < k; j++) { unsigned to = vs_choose(2, "to"); val[j] = vs_i32("v"); vs_assert(Raw::put(a.resp, respMsg(id[to], NIL(), encI(val[j]))), "put"); dest[j] = (int)to; if (first[to] < 0) first[to] = j; }
    env.preemptBudget = 0; env_sleep_ms(100);
    for (int i = 0; i < 2; i++) { K[i].poll(); vs_assert(K[i].r.n == (first[i] >= 0), "a call completed not exactly once"); bool any = false; for (int j = 0; j < k; j++) if (dest[j] == i) any |= K[i].r.val == val[j]; if (first[i] >= 0) { vs_assert(K[i].r.ok, "an answered call failed"); if (VEIGAR_DISPATCHER_THREAD_NUMBER == 1) vs_assert(K[i].r.val == val[first[i]], "a later response changed the result"); else vs_assert(any, "a call got a result that no response to it carries"); } }
    A.releaseCall(id[0]); A.uninit(); K[1].poll(); vs_assert(K[1].r.n == 1, "callback not completed at shutdown"); a.close(); t.close(); lockFree("A"); for (auto& q : K) q = One(); }
  noHandles(); vs_reach("done");
}
// a callback that is completed by the shutdown uses the instance
static int mode5, inner5, outer5; static std::string self5; static std::shared_ptr<AsyncCallResult> keep5;
static void atShutdown() {
  mode5 = (int)vs_choose(8, "mode"); outer5 = inner5 = 0; self5 = vs_choose(2, "to itself") ? "A" : "T"; int n = 1 + (int)vs_choose(2, "n"); { Veigar A; vs_assert(A.init("A", 8, 160), "init"); Raw t(8, 160); t.create("T"); V = &A; keep5 = A.asyncCall("T", 300, "f", 1);
    for (int i = 0; i < n; i++) A.asyncCall([](const CallResult& r) { vs_assert(!r.isSuccess() && !r.errorMessage.empty(), "a call nobody answered succeeded"); outer5++; switch (mode5) {
      case 0: V->releaseCall(keep5->first); break; case 1: { auto f = V->asyncCall(self5, 100, "g", 1); vs_assert(f && f->second.wait_for(std::chrono::milliseconds(400)) == std::future_status::ready, "a call made in a callback at shutdown never completed"); CallResult q = f->second.get(); vs_assert(!q.isSuccess(), "a stopped instance made a call"); V->releaseCall(f->first); inner5++; break; }
      case 2: V->asyncCall([](const CallResult& q) { vs_assert(!q.isSuccess(), "a stopped instance made a call"); inner5++; }, self5, 100, "g", 1); break; case 3: { CallResult q = V->syncCall(self5, 100, "g", 1); vs_assert(!q.isSuccess(), "a stopped instance made a call"); inner5++; break; }
      case 4: V->bindNames(); V->unbind("g"); V->bind("h", [](int32_t a) -> int32_t { return a; }); break; case 5: V->isInit(); V->channelName(); V->msgQueueCapacity(); V->setTimeoutOfRWLock(50); break; case 6: throw std::runtime_error("callback"); case 7: V->releaseCall("nobody"); throw 3; } }, "T", 300, "f", 1);
    if (vs_choose(2, "delivered")) env_sleep_ms(50); int64_t t0 = env.now; env.preemptMask = P_SEM | P_MTX; env.preemptBudget = (int)vs_param("preempt", 1); A.uninit(); env.preemptBudget = 0; vs_assert(env.now - t0 < 1500 * MS, "the shutdown took too long"); env_sleep_ms(300);
    vs_assert(outer5 == n, outer5 > n ? "completed more than once" : "a call was left incomplete by the shutdown"); if (mode5 >= 1 && mode5 <= 3) vs_assert(inner5 == n, "a call made in a callback at shutdown did not complete exactly once"); vs_assert(keep5->second.wait_for(std::chrono::seconds(0)) == std::future_status::ready || mode5 == 0, "a call was left incomplete by the shutdown"); vs_assert(!A.isInit(), "still running"); keep5.reset(); t.close();
    vs_assert(A.init("A", 8, 160), "cannot start again"); A.bind("self", [](int32_t a) -> int32_t { return a; }); CallResult c = A.syncCall("A", 2000, "self", 5); int32_t v = 0; vs_assert(c.isSuccess() && c.convertObject(v) && v == 5, "a later call failed"); A.uninit(); }
  noHandles(); vs_assert(env_threads_alive() == 1, "threads left"); vs_reach("done");
}
// calls through an instance that is not running: never started, start failed, or shut down
static void notRunning() {
  for (auto& k : K) k = One(); unsigned state = vs_choose(4, "state"); av = (int32_t)vs_i32("arg"); tmo = 200; fn = "f"; static const char* T[] = {"A", "B", "nobody"}; tgt = T[vs_choose(3, "target")]; int n = 1 + (int)vs_choose(2, "calls");
  { Veigar A, B; vs_assert(B.init("B", 4, 64), "init"); B.bind("f", [](int32_t a) -> int32_t { return a; });
    if (state == 1) vs_assert(!A.init("", 4, 64), "init"); if (state == 2) { vs_assert(A.init("A", 4, 64), "init"); A.uninit(); } if (state == 3) { env.faultMask = F_SHMOPEN; env.faultBudget = 1; bool up = A.init("A", 4, 64); env.faultBudget = 0; if (up) A.uninit(); }
    for (int i = 0; i < n; i++) { K[i].kind = (int)vs_choose(3, "kind"); static int I; static Veigar* W; I = i; W = &A; static int over; over = 0; int t = env_spawn([](void*) { issue(*W, I); over = 1; }, nullptr); env_sleep_ms(300); vs_assert(over == 1, "a call through an instance that is not running never returned"); env_join(t); K[i].poll(); vs_assert(K[i].r.n == 1, "a call through an instance that is not running was not completed"); vs_assert(!K[i].r.ok && K[i].r.code == ErrorCode::FAILED && !K[i].r.msg.empty(), "a call that cannot be sent was not reported as failed"); }
    for (int i = 0; i < n; i++) { K[i].f.reset(); vs_assert(K[i].r.n == 1, "a call completed twice"); } B.uninit(); }
  noHandles(); for (auto& k : K) k = One(); tgt = std::string(); vs_reach("done");
}
extern "C" void vs_main() { switch (vs_param("case", 0)) { case 0: causes(); break; case 1: shutdown(); break; case 2: reentrant(); break; case 3: duplicates(); break; case 4: atShutdown(); break; case 5: notRunning(); break; } }
