// A call reaches the channel it names and no other, and its answer comes back to the caller only.
#include "rpc.h"
using namespace rpc;
namespace {
struct Inst { Veigar v; std::string name; int ran = 0, other = 0; bool up = false; int32_t tag; };
Inst* I[3]; int nI;
void binds(Inst& s) { Inst* p = &s; s.v.bind("f", [p](int32_t a) -> int32_t { p->ran++; return p->tag + a; }); std::string own = "only" + std::to_string(s.tag); s.v.bind(own, [p](int32_t a) -> int32_t { p->other++; return p->tag * 2 + a; }); }
bool start(Inst& s, int cap = 4, int esz = 160) { s.up = s.v.init(s.name, (uint32_t)cap, (uint32_t)esz); if (s.up) binds(s); return s.up; }
void stop(Inst& s) { s.v.uninit(); s.up = false; }
void ask(Inst& from, const std::string& to, Inst* t, unsigned kind, bool own, int32_t x) {
  static int cbs; static CallResult cr; cbs = 0; int was[3], wasO[3]; for (int i = 0; i < nI; i++) { was[i] = I[i]->ran; wasO[i] = I[i]->other; } CallResult r; std::string fn = own && t ? "only" + std::to_string(t->tag) : "f";
  if (kind == 0) r = from.v.syncCall(to, 200, fn, x); else if (kind == 1) { auto f = from.v.asyncCall(to, 200, fn, x); vs_assert(f->second.wait_for(std::chrono::milliseconds(500)) == std::future_status::ready, "a call did not complete"); r = f->second.get(); from.v.releaseCall(f->first); } else { from.v.asyncCall([](const CallResult& q) { cbs++; cr.errCode = q.errCode; cr.errorMessage = q.errorMessage; int32_t v = -1; if (const_cast<CallResult&>(q).convertObject(v)) cr.obj = veigar_msgpack::object_handle(veigar_msgpack::object(v), nullptr); }, to, 200, fn, x); env_sleep_ms(60); vs_assert(cbs == 1, "a callback did not run exactly once"); r = std::move(cr); }
  bool up = t && t->up; int32_t v = -1; if (up) vs_assert(r.isSuccess() && r.convertObject(v) && v == (own ? 2 : 1) * t->tag + x, "a call was not answered by the channel it names"); else vs_assert(!r.isSuccess() && r.errCode != ErrorCode::SUCCESS, "a call to a channel that does not run was answered");
  for (int i = 0; i < nI; i++) { vs_assert(I[i]->ran - was[i] == (up && I[i] == t && !own), "a call ran on another channel than the one it names"); vs_assert(I[i]->other - wasO[i] == (up && I[i] == t && own), "a call ran on another channel than the one it names"); }
}
void empty(Inst& s, int cap = 4, int esz = 160) { MessageQueue c(cap, esz), r(cap, esz); vs_assert(c.open(s.name + "_call") && r.open(s.name + "_resp"), "open"); vs_assert(c.processRWLock(50) && c.msgNumber() == 0, "a message is left"); c.processRWUnlock(); vs_assert(r.processRWLock(50) && r.msgNumber() == 0, "a message is left"); r.processRWUnlock(); c.close(); r.close(); }
void pickNames() {
  static const char* odd[][2] = {{"q", "q_call"}, {"q_resp", "q_call"}, {"q", "q_call_shm"}, {"q", "q_rwlock"}, {"Q", "q"}, {"q ", " q"}, {"q", "qq"}, {"channel-with-a-rather-long-name-0", "channel-with-a-rather-long-name-1"}, {"q%s", "q%d"}, {"A_call", "A_resp"}, {"\xc3\xa4", "\xc3\xa5"}, {"q.", "q.."} };
  I[0]->name = "A"; unsigned n = (unsigned)vs_param("n", 0);
  if (n) { for (int i = 1; i < 3; i++) { unsigned l = 1 + vs_choose(n, "length"); for (unsigned k = 0; k < l; k++) { uint8_t c = vs_u8("char"); vs_assume(c != 0); vs_assume(c != '/'); I[i]->name.push_back((char)c); } vs_assume(I[i]->name != "."); vs_assume(I[i]->name != ".."); } vs_assume(I[1]->name != I[2]->name); vs_assume(I[1]->name != "A"); vs_assume(I[2]->name != "A"); }
  else { unsigned w = vs_choose(sizeof odd / sizeof odd[0] + 4, "names"); if (w >= sizeof odd / sizeof odd[0]) { static const int L[] = {15, 63, 128, 230}; int l = L[w - sizeof odd / sizeof odd[0]]; I[1]->name = std::string((size_t)l, 'l') + "0"; I[2]->name = std::string((size_t)l, 'l') + "1"; } else for (int i = 0; i < 2; i++) I[i + 1]->name = odd[w][i]; }
}
}
// any names, any order of calls, starts and stops
static void sequences() {
  int k = (int)vs_param("k", 2); int32_t x = (int32_t)vs_range("x", 0, 63); nI = 3; { Inst a, b, c; I[0] = &a; I[1] = &b; I[2] = &c; a.tag = 100; b.tag = 200; c.tag = 300; pickNames(); for (int i = 0; i < 3; i++) vs_assert(start(*I[i]), "init");
    for (int s = 0; s < k; s++) { unsigned op = vs_choose(2, "op"); Inst& w = *I[1 + vs_choose(2, "which")];
      if (op == 0) { if (w.up) stop(w); else vs_assert(start(w), "cannot start again"); }
      else { Inst& from = *I[vs_param("froms", 0) ? vs_choose(2, "from") * 2 : 0]; if (from.up) ask(from, w.name, &w, vs_choose(3, "kind"), vs_choose(2, "own"), x); } }
    for (Inst* from : {&a, &b}) for (int i = 0; i < 3; i++) if (from->up) ask(*from, I[i]->name, I[i], (unsigned)i, false, x); ask(a, "nobody", nullptr, 0, false, x); for (int i = 0; i < 3; i++) if (I[i]->up) { empty(*I[i]); stop(*I[i]); } }
  noHandles(); vs_assert(env_threads_alive() == 1, "threads left"); vs_reach("done");
}
// calls to several channels at the same time, from one instance or from all
static void crossing() {
  int n = (int)vs_param("per", 1); int32_t x = (int32_t)vs_range("x", 0, 63); bool all = vs_param("all", 0); nI = 3; { Inst a, b, c; I[0] = &a; I[1] = &b; I[2] = &c; a.tag = 100; b.tag = 200; c.tag = 300; a.name = "A"; b.name = "B"; c.name = "C"; for (int i = 0; i < 3; i++) vs_assert(start(*I[i]), "init"); env_sleep_ms(40);
    if (vs_param("warm", 0)) for (int i = 0; i < 3; i++) { int32_t v = -1; CallResult r = a.v.syncCall(I[i]->name, 500, "f", x); vs_assert(r.convertObject(v) && v == I[i]->tag + x, "warm up"); } for (int i = 0; i < 3; i++) I[i]->ran = 0;
    env.preemptMask = (int)vs_param("mask", P_SEM | P_MTX); env.preemptBudget = (int)vs_param("preempt", 1); struct Q { std::shared_ptr<AsyncCallResult> f; int from, to; }; std::vector<Q> q;
    for (int r = 0; r < n; r++) for (int f = 0; f < (all ? 3 : 1); f++) for (int t = 0; t < 3; t++) if (!all || t != f) q.push_back({I[f]->v.asyncCall(I[t]->name, 1000, "f", x + (int32_t)q.size()), f, t});
    env_sleep_ms(200); env.preemptBudget = 0; int want[3] = {0, 0, 0}; int32_t j = 0; for (auto& p : q) { want[p.to]++; vs_assert(p.f->second.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "a call did not complete"); CallResult r = p.f->second.get(); int32_t v = -1; vs_assert(r.isSuccess() && r.convertObject(v) && v == I[p.to]->tag + x + j, "a call was not answered by the channel it names"); j++; I[p.from]->v.releaseCall(p.f->first); }
    for (int i = 0; i < 3; i++) { vs_assert(I[i]->ran == want[i], "a call ran on another channel than the one it names"); empty(*I[i]); } for (int i = 0; i < 3; i++) stop(*I[i]); }
  noHandles(); vs_reach("done");
}
extern "C" void vs_main() { switch (vs_param("case", 0)) { case 0: sequences(); break; case 1: crossing(); break; } }
