// Nothing escapes from the public interface and nothing ends the process (C25).
#include "rpc.h"
#include <stdexcept>
using namespace rpc;
namespace {
const int64_t MS = 1000000; int ran, cbRan; bool cbOk; int thrower; std::string cbMsg;
struct Odd { int v; };
struct Mute : std::exception { const char* what() const noexcept override { return ""; } };
[[noreturn]] void blow(int how) { switch (how) { case 1: throw std::runtime_error("one"); case 2: throw 5; case 3: throw Odd{3}; case 4: throw std::string("s"); case 5: throw Mute(); case 6: throw std::bad_alloc(); default: throw std::runtime_error(std::string(300, 'w')); } }
void cb(const CallResult& r) { cbRan++; cbOk = r.isSuccess(); cbMsg = r.errorMessage; if (thrower) blow(thrower); }
template <class F> void guarded(F f, const char* id = "an exception escaped from the public interface") { try { f(); } catch (...) { vs_fail(id); } }
bool works(Veigar& A, const char* to, int32_t x) { bool ok = false; guarded([&] { CallResult r = A.syncCall(to, 1500, "f", x); int32_t v = -1; ok = r.isSuccess() && r.convertObject(v) && v == x; }); return ok; }
void binds(Veigar& v) { v.bind("f", [](int32_t a) -> int32_t { ran++; return a; }); v.bind("s", [](std::string a) -> std::string { ran++; return a; }); v.bind("big", [](int32_t n) -> std::string { ran++; return std::string((size_t)n, 'b'); }); v.bind("blow", [](int32_t h) -> int32_t { ran++; blow(h); }); v.bind("vblow", [](int32_t h) { ran++; blow(h); }); v.bind("zblow", []() -> int32_t { ran++; blow(3); }); }
}
// whatever bound functions and callbacks throw
static void throwers() {
  ran = cbRan = 0; int32_t x = (int32_t)vs_range("x", 0, 127); { Veigar A, B; vs_assert(A.init("A", 4, 256) && B.init("B", 4, 256), "init"); binds(B); binds(A); thrower = (int)vs_choose(8, "callback throws"); int h = 1 + (int)vs_choose(7, "function throws"); unsigned where = vs_choose(7, "where"); int64_t t0 = env.now; unsigned sig = vs_choose(3, "signature"); const char* fn = sig == 0 ? "blow" : sig == 1 ? "vblow" : "zblow";
    guarded([&] { switch (where) {
      case 0: if (sig == 2) A.asyncCall(cb, "B", 500, fn); else A.asyncCall(cb, "B", 500, fn, h); break;
      case 1: { CallResult r; if (sig == 2) r = A.syncCall("B", 500, fn); else r = A.syncCall("B", 500, fn, h); vs_assert(!r.isSuccess() && r.errCode == ErrorCode::SUCCESS && !r.errorMessage.empty(), "an exception of the function was not reported"); cbRan = 1; break; }
      case 2: A.asyncCall(cb, "nobody", 500, "f", x); break;
      case 3: A.asyncCall(cb, "B", 500, "f", x); break;
      case 4: A.asyncCall(cb, "B", 500, "nothing", x); break;
      case 5: A.asyncCall(cb, "B", 500, "s", std::string(2000, 'q')); break;
      case 6: { Veigar C; C.asyncCall(cb, "B", 500, "f", x); break; } } });
    env_sleep_ms(150); (void)t0; vs_assert(cbRan == 1, cbRan ? "a callback ran twice" : "a call never completed"); if (where == 0) vs_assert(!cbOk && !cbMsg.empty(), "an exception of the function was not reported"); if (where == 3) vs_assert(cbOk, "call"); if (where == 2 || where > 3) vs_assert(!cbOk && !cbMsg.empty(), "a failure was not reported"); cbMsg = std::string(); thrower = 0; vs_assert(works(A, "B", x) && works(B, "A", x), "after an exception calls do not work any more"); guarded([&] { A.uninit(); B.uninit(); }); }
  noHandles(); vs_reach("done");
}
// odd arguments to every operation, in every state of the instance
static void odd() {
  ran = cbRan = 0; thrower = 0; int32_t x = (int32_t)vs_range("x", 0, 127); { Veigar A; unsigned state = vs_choose(3, "state"); std::string names[] = {"", std::string(1, '\0'), std::string(300, 'n'), std::string("a\0b", 3), "/x", "a/b", ".", "..", std::string(5000, 'm'), "%s%n%d", std::string(1, (char)vs_u8("byte"))}; if (state) { guarded([&] { vs_assert(A.init("A", 4, 256), "init"); }); binds(A); } if (state == 2) guarded([&] { A.uninit(); }); std::string n = names[vs_choose(11, "name")]; unsigned op = vs_choose(10, "op"); CallResult r; bool up = state == 1;
    guarded([&] { switch (op) {
      case 0: { bool b = A.init(n, 4, 256); if (b && !up) { up = true; binds(A); } break; }
      case 1: r = A.syncCall(n, 200, "f", x); if (n == "A" && up) { vs_assert(r.isSuccess(), "call"); break; } vs_assert(!r.isSuccess() && !r.errorMessage.empty(), "a failure was not reported"); break;
      case 2: r = A.syncCall("A", 200, n, x); if (n.size() == 1 && up) break; vs_assert(!r.isSuccess() && !r.errorMessage.empty(), "a failure was not reported"); break;
      case 3: r = A.syncCall("A", 200, "s", n); if (up && n.size() < 200) { std::string s; vs_assert(r.isSuccess() && r.convertObject(s) && s == n, "a string did not come back"); } break;
      case 4: if (n == "f") break; A.bind(n, [](int32_t a) -> int32_t { return a; }); A.unbind(n); A.bindNames(); break;
      case 5: A.releaseCall(n); break;
      case 6: A.asyncCall(cb, n, 200, n, n); env_sleep_ms(300); vs_assert(cbRan == 1 && !cbOk && !cbMsg.empty(), "a failure was not reported"); break;
      case 7: { auto f = A.asyncCall(n, 200, n, n); vs_assert(f && f->second.valid(), "no future"); r = f->second.get(); vs_assert(!r.isSuccess() && !r.errorMessage.empty(), "a failure was not reported"); A.releaseCall(f->first); A.releaseCall(f->first); break; }
      case 8: { ResultCallback none; A.asyncCall(none, "A", 200, "f", x); A.asyncCall(none, n, 200, "f", x); env_sleep_ms(100); break; }
      case 9: A.uninit(); A.uninit(); A.init("A", 4, 256); up = true; binds(A); break; } });
    cbMsg = std::string(); guarded([&] { vs_assert(A.isInit() == up, "isInit"); if (up) { vs_assert(works(A, A.channelName().c_str(), x), "calls do not work any more"); } A.uninit(); }); }
  noHandles(); vs_reach("done");
}
static unsigned W; static std::string* BIG; static Veigar* VV; static CallResult* SR; static bool* SG;
// a large allocation fails somewhere on the way of a call
static void memory() {
  ran = cbRan = 0; thrower = 0; int32_t x = (int32_t)vs_range("x", 0, 127); int64_t live0 = 0; { Veigar A, B; vs_assert(A.init("A", 4, 2000) && B.init("B", 4, 2000), "init"); binds(B); binds(A); vs_assert(works(A, "B", x) && works(B, "A", x), "warm up"); unsigned where = vs_choose(3, "where"); int n = 1 + (int)vs_choose((unsigned)vs_param("n", 14), "which"); std::string big((size_t)vs_param("size", 900), 'z'); int kind = (int)vs_choose(3, "kind"); int64_t t0 = env.now; 
    env_alloc.failed = 0; env_alloc.min = vs_param("min", 500); std::shared_ptr<AsyncCallResult> f; CallResult r; bool got = false; env_alloc.count = n;
    W = where; BIG = &big; VV = &A; SR = &r; SG = &got; int th = -1; got = false;
    if (kind == 0) th = env_spawn([](void*) { guarded([] { *SR = W == 0 ? VV->syncCall("B", 500, "s", std::move(*BIG)) : W == 1 ? VV->syncCall("B", 500, "big", 900) : VV->syncCall("B", 500, *BIG, 1); *SG = true; }); }, nullptr);
    else guarded([&] { switch (where) {
      case 0: if (kind == 1) f = A.asyncCall("B", 500, "s", std::move(big)); else A.asyncCall(cb, "B", 500, "s", std::move(big)); break;
      case 1: if (kind == 1) f = A.asyncCall("B", 500, "big", 900); else A.asyncCall(cb, "B", 500, "big", 900); break;
      case 2: if (kind == 1) f = A.asyncCall("B", 500, big, 1); else A.asyncCall(cb, "B", 500, big, 1); break; } });
    env_sleep_ms(60); if (f) { if (f->second.wait_for(std::chrono::milliseconds(0)) == std::future_status::ready) { guarded([&] { r = f->second.get(); got = true; }); } } if (kind == 2) { got = cbRan == 1; vs_assert(cbRan <= 1, "a callback ran twice"); }
    bool failed = env_alloc.failed > 0; env_alloc.count = 0; (void)t0; if (!failed) { vs_reach("no failure"); vs_assert(got, "a call never completed"); } else vs_reach("failed"); guarded([&] { if (f) A.releaseCall(f->first); });
    vs_assert(works(A, "B", x) && works(B, "A", x), "after a failed allocation calls do not work any more"); f.reset(); cbMsg = std::string(); guarded([&] { A.uninit(); B.uninit(); }); if (th >= 0) { env_join(th); vs_assert(got, "a call never completed"); } if (kind == 2) vs_assert(cbRan == 1, "a call never completed"); }
  env_alloc.count = 0; noHandles(); vs_reach("done");
}
// starting and stopping with failing system calls and threads
static void starting() {
  ran = 0; thrower = 0; int32_t x = (int32_t)vs_range("x", 0, 127); { Veigar A; env.faultMask = F_SEMOPEN | F_SHMOPEN | F_FTRUNC | F_MMAP | F_THREAD; env.faultBudget = (int)vs_param("faults", 2); bool up = false; for (int i = 0; i < 3; i++) guarded([&] { binds(A); up = A.init("A", 4, 256); if (!up && vs_choose(2, "use")) { CallResult r = A.syncCall("A", 100, "f", x); vs_assert(!r.isSuccess() && !r.errorMessage.empty(), "a failure was not reported"); } }); env.faultBudget = 0; if (!up) { guarded([&] { binds(A); up = A.init("A", 4, 256); }); } vs_assert(up && works(A, "A", x), "calls do not work any more"); guarded([&] { A.uninit(); }); }
  noHandles(); vs_reach("done");
}
// the receive buffers are large: their allocation fails while starting
static void startMemory() {
  ran = 0; thrower = 0; int32_t x = (int32_t)vs_range("x", 0, 127); int64_t live0 = vs_live(); { Veigar A; uint32_t es = vs_choose(2, "larger than the initial buffer") ? 200000 : 256; bool up = false; env_alloc.failed = 0; env_alloc.min = vs_param("min", 60000); env_alloc.count = 1 + (int)vs_choose((unsigned)vs_param("n", 10), "which"); guarded([&] { binds(A); up = A.init("A", 4, es); env_sleep_ms(20); }); env_alloc.count = 0; vs_reach(env_alloc.failed ? "failed" : "no failure"); if (!env_alloc.failed) vs_assert(up, "init");
    vs_assert(A.isInit() == up, "isInit"); if (!up) { vs_assert(env_threads_alive() == 1 && env_shm_named() == 0, "a failed start left something behind"); noHandles(); guarded([&] { binds(A); up = A.init("A", 4, es); }); } vs_assert(up, "init"); vs_assert(works(A, "A", x), "an instance that reported success does not work"); guarded([&] { A.uninit(); }); }
  noHandles(); vs_assert(vs_live() == live0 || !cbMsg.empty(), "memory left"); vs_reach("done");
}
// types whose encoding or decoding throws, as argument, result and in convertObject
namespace { struct Bomb { int pack = 0, unpack = 0, value = 0; template <class P> void msgpack_pack(P& p) const { if (pack) blow(pack); p.pack_array(2); p.pack(unpack); p.pack(value); }
  void msgpack_unpack(veigar_msgpack::object const& o) { if (o.type != veigar_msgpack::type::ARRAY || o.via.array.size != 2) throw veigar_msgpack::type_error(); int u = o.via.array.ptr[0].as<int>(); if (u) blow(u); value = o.via.array.ptr[1].as<int>(); }
  template <class O> void msgpack_object(O* o, veigar_msgpack::zone& z) const { if (pack) blow(pack); o->type = veigar_msgpack::type::ARRAY; o->via.array.ptr = (veigar_msgpack::object*)z.allocate_align(2 * sizeof(veigar_msgpack::object)); o->via.array.size = 2; o->via.array.ptr[0] = veigar_msgpack::object(unpack); o->via.array.ptr[1] = veigar_msgpack::object(value); } }; }
static void bombs() {
  ran = cbRan = 0; thrower = 0; int32_t x = (int32_t)vs_range("x", 0, 127); { Veigar A, B; vs_assert(A.init("A", 4, 256) && B.init("B", 4, 256), "init"); binds(B); binds(A); B.bind("take", [](Bomb b) -> int32_t { ran++; return b.value; }); B.bind("make", [](int32_t p, int32_t u, int32_t v) -> Bomb { ran++; Bomb b; b.pack = p; b.unpack = u; b.value = v; return b; });
    unsigned where = vs_choose(3, "where"), kind = vs_choose(3, "kind"); int how = (int)vs_choose(8, "throws"); bool real = how != 0; CallResult r; bool done = false, ok = false; std::string msg; Bomb b; b.value = x; if (where == 0) b.pack = how; if (where == 1) b.unpack = how;
    int mp = where == 2 ? how : 0; std::shared_ptr<AsyncCallResult> f;
    guarded([&] { if (kind == 0) { r = where < 2 ? A.syncCall("B", 500, "take", b) : A.syncCall("B", 500, "make", mp, 0, x); done = true; ok = r.isSuccess(); msg = r.errorMessage; } else if (kind == 1) { f = where < 2 ? A.asyncCall("B", 500, "take", b) : A.asyncCall("B", 500, "make", mp, 0, x); vs_assert(f && f->second.valid(), "no future"); env_sleep_ms(50); vs_assert(f->second.wait_for(std::chrono::milliseconds(0)) == std::future_status::ready, "a call never completed"); r = f->second.get(); done = true; ok = r.isSuccess(); msg = r.errorMessage; A.releaseCall(f->first); } else { if (where < 2) A.asyncCall(cb, "B", 500, "take", b); else A.asyncCall(cb, "B", 500, "make", mp, 0, x); env_sleep_ms(50); vs_assert(cbRan == 1, cbRan ? "a callback ran twice" : "a call never completed"); done = true; ok = cbOk; msg = cbMsg; } });
    vs_assert(done && ok == !real, real ? "an exception while encoding or decoding was not reported" : "a call that throws nothing failed"); if (real) { if (!(where == 0 && how == 5)) vs_assert(!msg.empty(), "a failure was not reported"); vs_assert(ran == (where == 2 ? 1 : 0), "function runs"); } else if (kind < 2 && where < 2) { int32_t v = -1; vs_assert(r.convertObject(v) && v == x, "result"); }
    if (where == 2 && kind < 2 && how) { CallResult q; guarded([&] { q = A.syncCall("B", 500, "make", 0, how, x); vs_assert(q.isSuccess(), "a call that throws nothing failed"); Bomb o; o.value = 500; vs_assert(!q.convertObject(o), "an exception while decoding was not reported"); std::string s; vs_assert(!q.convertObject(s), "an object converted to another type"); }); }
    f.reset(); cbMsg = std::string(); vs_assert(works(A, "B", x) && works(B, "A", x), "after an exception calls do not work any more"); guarded([&] { A.uninit(); B.uninit(); }); }
  noHandles(); vs_reach("done");
}
extern "C" void vs_main() { switch (vs_param("case", 0)) { case 5: bombs(); break; case 0: throwers(); break; case 1: odd(); break; case 2: memory(); break; case 3: starting(); break; case 4: startMemory(); break; } }
