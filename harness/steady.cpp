// Traffic leaves nothing behind in a running instance: the same events again need no more memory, handles or threads.
#include "rpc.h"
#include <stdexcept>
using namespace rpc;
namespace {
struct Res { int64_t blocks, bytes; int fds, maps, sems, threads, names; };
Res now() { return {vs_live(), vs_live_bytes(), env.fds, env.maps, env.sems, env_threads_alive(), env_sem_named() + env_shm_named()}; }
void binds(Veigar& v) { v.bind("f", [](int32_t a) -> int32_t { return a; }); v.bind("e", [](std::string s) -> std::string { return s; }); v.bind("t", [](int32_t) -> int32_t { throw std::runtime_error("an error text that is longer than a short string"); }); v.bind("v", [](std::vector<std::string> x) -> std::vector<std::string> { return x; }); v.bind("n", []() {}); v.bind("big", []() -> std::string { return std::string(30000, 'r'); }); }
int done; void cb(const CallResult&) { done++; }
const unsigned NEV = 22; int32_t X; Raw *tp, *ap;
void wait(Veigar& A, std::shared_ptr<AsyncCallResult> f, bool want) { bool r = f->second.wait_for(std::chrono::milliseconds(400)) == std::future_status::ready; vs_assert(r == want, want ? "a call did not complete" : "a call completed without an answer"); A.releaseCall(f->first); }
void event(Veigar& A, Veigar& B, unsigned e) {
  switch (e) {
    case 0: { CallResult r = A.syncCall("B", 300, "f", X); vs_assert(r.isSuccess(), "call"); break; }
    case 1: wait(A, A.asyncCall("B", 300, "f", X), true); break;
    case 2: { done = 0; A.asyncCall(cb, "B", 300, "f", X); env_sleep_ms(40); vs_assert(done == 1, "callback"); break; }
    case 3: { CallResult r = A.syncCall("B", 300, "a function nobody has bound", X); vs_assert(!r.isSuccess(), "unbound"); break; }
    case 4: { CallResult r = A.syncCall("B", 300, "t", X); vs_assert(!r.isSuccess(), "throw"); break; }
    case 5: { CallResult r = A.syncCall("nobody", 300, "f", X); vs_assert(!r.isSuccess(), "absent"); break; }
    case 6: wait(A, A.asyncCall("nobody", 300, "f", X), true); break;
    case 7: { done = 0; A.asyncCall(cb, "nobody", 300, "f", X); env_sleep_ms(40); vs_assert(done == 1, "callback"); break; }
    case 8: { CallResult r = A.syncCall("B", 60, "e", std::string(90000, 'x')); vs_assert(!r.isSuccess(), "too large"); break; }
    case 9: { CallResult r = A.syncCall("B", 300, "e", std::string(30000, 'x')); vs_assert(r.isSuccess(), "large"); break; }
    case 10: { CallResult r = A.syncCall("B", 300, "v", std::vector<std::string>(3, std::string(40, 'v'))); std::vector<std::string> o; vs_assert(r.isSuccess() && r.convertObject(o) && o.size() == 3, "vector"); break; }
    case 11: { CallResult r = A.syncCall("B", 300, "n"); vs_assert(r.isSuccess(), "void"); break; }
    case 12: { CallResult r = A.syncCall("A", 300, "f", X); vs_assert(r.isSuccess(), "self"); break; }
    case 13: { CallResult r = A.syncCall("B", 300, "f", std::string("wrong type")); vs_assert(!r.isSuccess(), "type"); break; }
    case 14: { wait(A, A.asyncCall("T", 300, "f", X), false); Bytes m; vs_assert(Raw::take(tp->call, m, 100), "delivered"); Call c = parseCall(m); Raw::put(ap->resp, respMsg(c.id, NIL(), encI(1))); env_sleep_ms(40); break; } // released, then answered
    case 15: { auto f = A.asyncCall("T", 300, "f", X); Bytes m; vs_assert(Raw::take(tp->call, m, 100), "delivered"); Call c = parseCall(m); for (int i = 0; i < 2; i++) Raw::put(ap->resp, respMsg(c.id, encS("an error text that is longer than a short string"), NIL())); env_sleep_ms(40); wait(A, f, true); break; }
    case 16: { Raw::put(ap->resp, Bytes{0x94, 1, 0xa1}); env_sleep_ms(40); break; }
    case 17: { Raw::put(ap->call, Bytes{0x95, 0, 0xa1, 'i', 0xdd, 0, 0, 1, 0, 0xdb}); env_sleep_ms(40); break; }
    case 18: { Bytes m; for (int i = 0; i < 3; i++) { Enc a; a.arr(1).fix(1); Bytes c = callMsg("id", "nobody at all, a long name", "f", a.b); m.insert(m.end(), c.begin(), c.end()); } Raw::put(ap->call, m); env_sleep_ms(60); break; } // answers that cannot be sent
    case 19: { for (Veigar* v : {&A, &B}) { vs_assert(v->bind("another function with a long name", [](std::string s) -> std::string { return s; }), "bind"); vs_assert(v->bindNames().size() == 7, "names"); v->unbind("another function with a long name"); v->unbind("another function with a long name"); } break; }
    case 20: { A.setTimeoutOfRWLock(20); vs_assert(tp->call.processRWLock(10), "lock"); CallResult r = A.syncCall("T", 100, "f", X); vs_assert(!r.isSuccess(), "locked"); tp->call.processRWUnlock(); break; }
    case 21: { Bytes m; for (int i = 0; i < 2; i++) vs_assert(Raw::put(tp->call, Bytes(40000, 1)), "fill"); CallResult r = A.syncCall("T", 20, "e", std::string(5000, 'x')); vs_assert(!r.isSuccess(), "full"); for (int i = 0; i < 2; i++) { int64_t w; std::vector<uint8_t> b(40000); vs_assert(tp->call.waitForRead(10) && tp->call.popFront(b.data(), 40000, w), "drain"); } break; } } }
}
// any two kinds of events, some rounds to warm up, then more rounds
static void rounds() {
  X = (int32_t)vs_range("x", 0, 127); int warm = (int)vs_param("warm", 3), more = (int)vs_param("more", 3); { Veigar A, B; vs_assert(A.init("A", 4, 20480) && B.init("B", 4, 20480), "init"); binds(A); binds(B); Raw t(4, 20480), a(4, 20480); t.create("T"); vs_assert(a.openResp("A") && a.openCall("A"), "open"); tp = &t; ap = &a;
    unsigned e1 = vs_choose(NEV, "event"), e2 = vs_param("pair", 0) ? vs_choose(NEV, "other") : e1;
    auto round = [&](int n) { for (int i = 0; i < n; i++) { event(A, B, e1); if (e2 != e1) event(A, B, e2); } env_sleep_ms(50); return now(); };
    // something that settles later is no accumulation: growth counts when it shows twice in a row
    Res r0 = round(warm), r1 = round(more), r2 = round(more); auto grows = [&](int64_t a, int64_t b, int64_t c) { return b > a && c > b; };
    vs_trace("blocks %ld bytes %ld event %ld", (long)(r2.blocks - r1.blocks), (long)(r2.bytes - r1.bytes), (long)e1);
    vs_assert(!grows(r0.blocks, r1.blocks, r2.blocks), "memory blocks pile up in a running instance"); vs_assert(!grows(r0.bytes, r1.bytes, r2.bytes), "memory grows in a running instance"); vs_assert(!grows(r0.fds, r1.fds, r2.fds) && !grows(r0.maps, r1.maps, r2.maps) && !grows(r0.sems, r1.sems, r2.sems), "handles pile up in a running instance"); vs_assert(r2.threads == r0.threads, "threads pile up or vanish"); vs_assert(r2.names == r0.names, "system objects pile up");
    a.close(); A.uninit(); B.uninit(); t.close(); }
  noHandles(); vs_reach("done");
}
extern "C" void vs_main() { switch (vs_param("case", 0)) { case 0: rounds(); break; } }
