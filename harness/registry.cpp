// The function registry (C22).
#include "rpc.h"
#include <algorithm>
#include <set>
using namespace rpc;
namespace {
const int64_t MS = 1000000;
struct Fn { int32_t id; std::string keep; mutable int calls = 0; Fn(int32_t i) : id(i), keep(40, (char)('a' + i % 26)) {} int32_t operator()(int32_t x) const { for (char c : keep) if (c != (char)('a' + id % 26)) vs_fail("a function ran after it was destroyed"); calls++; return id * 256 + x; } };
bool names(Veigar& v, const std::vector<std::string>& want) { auto n = v.bindNames(); if (n.size() != want.size()) return false; for (auto& w : want) if (std::count(n.begin(), n.end(), w) != 1) return false; return true; }
void check(Veigar& A, Veigar& B, const std::string& n, int32_t x, bool bound, int32_t id) { CallResult r = A.syncCall(B.channelName(), 1000, n, x); int32_t v = -1; if (bound) vs_assert(r.isSuccess() && r.convertObject(v) && v == id * 256 + x, "a call did not reach the function bound under its name"); else vs_assert(!r.isSuccess() && r.errCode == ErrorCode::SUCCESS && r.errorMessage == "Could not find function '" + n + "' with argument count 1.", "a call to an unbound name was not refused"); }
}
// any history of registry operations on any names
static void history() {
  int k = (int)vs_param("k", 4); int32_t x = (int32_t)vs_range("x", 0, 127); { Veigar A, B; B.bind("early", Fn(7)); vs_assert(A.init("A", 4, 160) && B.init("B", 4, 160), "init"); std::string nm[3]; nm[0].push_back((char)vs_u8("first")); for (int i = 0; i < 2; i++) nm[1].push_back((char)vs_u8("second")); nm[2] = std::string((size_t)vs_param("long", 20), 'f'); vs_assume(nm[0][0] != 0); vs_assume(nm[1][0] != 0); vs_assume(nm[1][1] != 0);
    std::vector<std::pair<std::string, int>> model; model.push_back({"early", 7}); auto at = [&](const std::string& n) { for (size_t i = 0; i < model.size(); i++) if (model[i].first == n) return (int)i; return -1; };
    for (int i = 0; i < k; i++) { unsigned w = vs_choose(4, "name"); std::string n = w < 3 ? nm[w] : "early"; int p = at(n);
      switch (vs_choose(4, "op")) {
        case 0: { bool r; int id = i + 1; switch (i & 3) { case 3: r = B.bind(n, std::function<int32_t(int32_t)>(Fn(id))); break; default: r = B.bind(n, Fn(id)); } vs_assert(r == (p < 0), r ? "a name was bound twice" : "a free name could not be bound"); if (p < 0) model.push_back({n, id}); break; }
        case 1: B.unbind(n); if (p >= 0) model.erase(model.begin() + p); break;
        case 2: check(A, B, n, x, p >= 0, p >= 0 ? model[p].second : 0); break;
        case 3: vs_assert(!B.bind("", Fn(1)), "an empty name was bound"); B.unbind(""); break; }
      std::vector<std::string> want; for (auto& m : model) want.push_back(m.first); vs_assert(names(B, want), "the listed names are not the bound ones"); }
    for (auto& n : {nm[0], nm[1], nm[2], std::string("early")}) { int p = at(n); check(A, B, n, x, p >= 0, p >= 0 ? model[p].second : 0); }
    A.uninit(); B.uninit(); }
  noHandles(); vs_reach("done");
}
// names are compared as they are: any two names of up to n bytes
static void distinct() {
  int n = (int)vs_param("n", 2); int32_t x = (int32_t)vs_range("x", 0, 127); { Veigar A; vs_assert(A.init("A", 4, 160), "init"); std::string a, b; unsigned la = 1 + vs_choose((unsigned)n, "len"), lb = 1 + vs_choose((unsigned)n, "len"); for (unsigned i = 0; i < la; i++) a.push_back((char)vs_u8("a")); for (unsigned i = 0; i < lb; i++) b.push_back((char)vs_u8("b"));
    bool same = a == b; vs_assert(A.bind(a, Fn(1)), "bind"); bool r = A.bind(b, Fn(2)); vs_assert(r == !same, r ? "a name was bound twice" : "a free name could not be bound"); CallResult q = A.syncCall("A", 1000, b, x); int32_t v = -1; vs_assert(q.isSuccess() && q.convertObject(v) && v == (same ? 256 : 512) + x, "a call did not reach the function bound under its name"); A.unbind(b); CallResult s = A.syncCall("A", 1000, a, x); if (same) vs_assert(!s.isSuccess(), "a call reached an unbound function"); else vs_assert(s.isSuccess() && s.convertObject(v) && v == 256 + x, "unbinding one name removed another"); vs_assert(names(A, same ? std::vector<std::string>() : std::vector<std::string>{a}), "the listed names are not the bound ones"); vs_reach(same ? "same" : "different"); A.uninit(); }
  noHandles(); vs_reach("done");
}
// functions keep what they remember between calls, whatever kind they are
static int plainCalls; static int32_t plain(int32_t a) { return ++plainCalls + a; } static int32_t nothing0() { return 5; } static void nothing1(int32_t) { plainCalls++; }
struct Cnt { mutable int n = 0; int32_t operator()() const { return ++n; } };
static void kinds() {
  plainCalls = 0; int32_t x = (int32_t)vs_range("x", 0, 100); { Veigar A; vs_assert(A.init("A", 4, 160), "init"); auto shared = std::make_shared<int>(0); A.bind("plain", &plain); A.bind("zero", &nothing0); A.bind("void", &nothing1); A.bind("void0", []() { plainCalls += 10; }); A.bind("cnt", Cnt()); A.bind("shared", [shared](int32_t a) -> int32_t { return ++*shared + a; }); std::function<int32_t(int32_t)> fn = [](int32_t a) -> int32_t { return a + 3; }; A.bind("function", fn); fn = nullptr; std::vector<int> big(50, 3); A.bind("big", [big](int32_t a) -> int32_t { return big[49] + a; });
    auto call = [&](const char* f, int32_t want) { CallResult r = A.syncCall("A", 1000, f, x); int32_t v = -1; vs_assert(r.isSuccess() && r.convertObject(v) && v == want, "a bound function gave another result"); };
    call("plain", x + 1); call("plain", x + 2); for (int i = 1; i <= 3; i++) { CallResult r = A.syncCall("A", 1000, "cnt"); int32_t v = -1; vs_assert(r.isSuccess() && r.convertObject(v) && v == i, "a bound function does not remember anything between calls"); } call("shared", x + 1); call("shared", x + 2); vs_assert(*shared == 2, "not the bound object"); call("function", x + 3); call("big", x + 3); CallResult r = A.syncCall("A", 1000, "zero"); int32_t v = -1; vs_assert(r.isSuccess() && r.convertObject(v) && v == 5, "a function without parameters"); r = A.syncCall("A", 1000, "void", x); vs_assert(r.isSuccess() && plainCalls == 3, "a function without result"); r = A.syncCall("A", 1000, "void0"); vs_assert(r.isSuccess() && plainCalls == 13, "a function without anything");
    A.unbind("shared"); env_sleep_ms(20); vs_assert(shared.use_count() == 1, "an unbound function was kept"); A.uninit(); }
  noHandles(); vs_reach("done");
}
// changes while a call is being dispatched: by the function itself, and by another thread at any moment
static Veigar* V; static int what, stage; static int32_t got;
static void act() { switch (what) { case 0: V->unbind("f"); break; case 1: V->unbind("f"); V->bind("f", Fn(2)); break; case 2: V->bind("g", Fn(3)); break; case 3: { V->bindNames(); break; } case 4: V->unbind("g"); break; case 5: for (int i = 0; i < 24; i++) V->bind("n" + std::to_string(i), Fn(1)); break; case 6: V->bind("f", Fn(4)); break; } }
struct Self { Fn inner{1}; std::string keep = std::string(40, 'k'); int32_t operator()(int32_t x) const { if (stage == 0) { stage = 1; act(); } else if (stage == 2) { stage = 3; env_sleep_ms(20); } env_yield(); for (char c : keep) if (c != 'k') vs_fail("a function was destroyed while it was running"); return inner(x); } };
static void during() {
  bool self = vs_param("self", 0); what = (int)vs_choose(7, "what"); stage = self ? 0 : 2; int32_t x = (int32_t)vs_range("x", 0, 127); { Veigar A, B; vs_assert(A.init("A", 4, 160) && B.init("B", 4, 160), "init"); V = &B; B.bind("f", Self()); if (what == 4) B.bind("g", Fn(9)); env_sleep_ms(40);
    env.preemptMask = (int)vs_param("mask", P_MTX | P_SEM); env.preemptBudget = (int)vs_param("preempt", 2); auto f1 = A.asyncCall("B", 1000, "f", x), f2 = A.asyncCall("B", 1000, "f", x); auto g = A.asyncCall("B", 1000, "g", x);
    if (!self) { unsigned w = vs_choose(3, "when"); if (w == 1) env_yield(); if (w == 2) env_sleep_ms(5); act(); }
    env_sleep_ms(120); env.preemptBudget = 0; bool changed = what <= 1; int32_t v = -1;
    for (auto f : {f1, f2}) { vs_assert(f->second.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "a call was lost"); CallResult r = f->second.get(); if (r.isSuccess()) { vs_assert(r.convertObject(v) && (v == 256 + x || (what == 1 && v == 512 + x)), "a call reached another function"); } else vs_assert(changed && r.errorMessage.find("Could not find") == 0, "a call failed although its function was bound all the time"); A.releaseCall(f->first); }
    { vs_assert(g->second.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "a call was lost"); CallResult r = g->second.get(); if (r.isSuccess()) vs_assert((what == 2 || what == 4) && r.convertObject(v) && v == (what == 2 ? 768 : 9 * 256) + x, "a call reached another function"); A.releaseCall(g->first); }
    stage = 9; check(A, B, "f", x, what != 0, what == 1 ? 2 : 1); if (what == 5) check(A, B, "n17", x, true, 1); std::vector<std::string> want; if (what != 0) want.push_back("f"); if (what == 2) want.push_back("g"); if (what == 5) for (int i = 0; i < 24; i++) want.push_back("n" + std::to_string(i)); vs_assert(names(B, want), "the listed names are not the bound ones"); A.uninit(); B.uninit(); }
  noHandles(); vs_reach("done");
}
// two threads bind the same name: one of them wins
static bool won[2]; static int two;
static void race() {
  two = (int)vs_choose(2, "with unbind"); int32_t x = (int32_t)vs_range("x", 0, 127); { Veigar A; V = &A; vs_assert(A.init("A", 4, 160), "init"); won[0] = won[1] = false; static int ix[2] = {0, 1}; env.preemptMask = P_MTX | P_THR; env.preemptBudget = (int)vs_param("preempt", 3); int t[2]; for (int i = 0; i < 2; i++) t[i] = env_spawn([](void* p) { int i = *(int*)p; won[i] = V->bind("f", Fn(i + 1)); if (two && i) V->unbind("f"); }, &ix[i]); for (int i = 0; i < 2; i++) env_join(t[i]); env.preemptBudget = 0; if (!two) { vs_assert(won[0] != won[1], "a name was bound twice"); check(A, A, "f", x, true, won[0] ? 1 : 2); } A.uninit(); }
  noHandles(); vs_reach("done");
}
// the registry stays usable while a function runs, however long it takes; other dispatchers go on serving calls
static int running, finished;
struct Long { int32_t operator()(int32_t x) const { running++; env_sleep_ms(300); running--; finished++; return x; } };
static void busy() {
  unsigned op = vs_choose(5, "op"); bool two = vs_param("two", 0); running = finished = 0; int32_t x = (int32_t)vs_range("x", 0, 127); { Veigar A, B; vs_assert(A.init("A", 4, 160) && B.init("B", 4, 160), "init"); B.bind("long", Long()); B.bind("g", Fn(3)); auto f = A.asyncCall("B", 1000, "long", x); env_sleep_ms(40); vs_assert(running == 1, "the call was not dispatched");
    int64_t t0 = env.now; switch (op) { case 0: vs_assert(B.bind("h", Fn(5)), "bind"); break; case 1: B.unbind("g"); break; case 2: B.unbind("long"); break; case 3: vs_assert(B.bindNames().size() == 2, "names"); break; case 4: vs_assert(!B.bind("g", Fn(6)), "a name was bound twice"); break; }
    vs_assert(env.now - t0 < 100 * MS && finished == 0, "a registry operation waited for a running function");
    if (two) { check(A, B, op == 0 ? "h" : "g", x, op != 1, op == 0 ? 5 : 3); vs_assert(finished == 0, "a call waited for another function although a dispatcher was free"); }
    env_sleep_ms(400); vs_assert(f->second.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "a call was lost"); CallResult r = f->second.get(); int32_t v = -1; vs_assert(r.isSuccess() && r.convertObject(v) && v == x && finished == 1, "the running function did not give its result"); A.releaseCall(f->first); A.uninit(); B.uninit(); }
  noHandles(); vs_reach("done");
}
// functions that call back: A calls B, whose function calls A (or B itself, with a second dispatcher)
static void nested() {
  bool self = vs_param("self", 0); unsigned how = vs_choose(3, "how"); static unsigned kind; kind = how; int32_t x = (int32_t)vs_range("x", 0, 127); static Veigar* W; static std::string back; back = self ? "B" : "A"; { Veigar A, B; W = &B; vs_assert(A.init("A", 4, 200) && B.init("B", 4, 200), "init"); (self ? B : A).bind("inner", [](int32_t a) -> int32_t { return a + 1; });
    B.bind("outer", [](int32_t a) -> int32_t { int32_t v = -1; if (kind == 0) { CallResult r = W->syncCall(back, 500, "inner", a); vs_assert(r.isSuccess() && r.convertObject(v), "a call made by a bound function failed"); } else if (kind == 1) { auto f = W->asyncCall(back, 500, "inner", a); CallResult r = f->second.get(); vs_assert(r.isSuccess() && r.convertObject(v), "a call made by a bound function failed"); W->releaseCall(f->first); } else { CallResult r = W->syncCall(back, 500, "outer of nobody", a); vs_assert(!r.isSuccess() && !r.errorMessage.empty(), "an unbound name was called"); v = 2 * a; } return v + 1; });
    env.preemptMask = P_MTX | P_SEM; env.preemptBudget = (int)vs_param("preempt", 1); CallResult r = A.syncCall("B", 1000, "outer", x); env.preemptBudget = 0; int32_t v = -1; vs_assert(r.isSuccess() && r.convertObject(v) && v == (how == 2 ? 2 * x + 1 : x + 2), "a nested call gave another result"); A.uninit(); B.uninit(); }
  noHandles(); vs_reach("done");
}
// the same function executed by two dispatchers at once: each execution has its own arguments and its own result
static int inside, most, notes;
static std::string together(const std::string& s, int32_t a) { std::string s0 = s; int32_t a0 = a; inside++; if (inside > most) most = inside; env_sleep_ms(5); inside--; vs_assert(s == s0 && a == a0, "the arguments of a running function changed"); return s + (char)('0' + a); }
static void atOnce() {
  inside = most = notes = 0; unsigned kind = vs_choose(3, "kind"); int32_t x[2] = {(int32_t)vs_range("x", 0, 9), (int32_t)vs_range("y", 0, 9)}; std::string s[2]; for (int i = 0; i < 2; i++) { s[i].push_back((char)vs_range("ch", 'a', 'z')); s[i] += std::string(20, i ? 'q' : 'p'); } { Veigar A, B; vs_assert(A.init("A", 4, 200) && B.init("B", 4, 200), "init");
    B.bind("f", together); B.bind("w", [](const std::string& s, int32_t a) { together(s, a); notes += 1; }); B.bind("z", []() -> int32_t { return (int32_t)together("zzzzzzzzzzzzzzzzzzzzzzzz", 3).size(); }); env.preemptMask = (int)vs_param("mask", P_MTX | P_SEM); env.preemptBudget = (int)vs_param("preempt", 1);
    std::shared_ptr<AsyncCallResult> f[2]; for (int i = 0; i < 2; i++) f[i] = kind == 0 ? A.asyncCall("B", 1000, "f", s[i], x[i]) : kind == 1 ? A.asyncCall("B", 1000, "w", s[i], x[i]) : A.asyncCall("B", 1000, "z"); env_sleep_ms(120); env.preemptBudget = 0;
    for (int i = 0; i < 2; i++) { vs_assert(f[i]->second.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "a call was lost"); CallResult r = f[i]->second.get(); vs_assert(r.isSuccess(), "a call failed"); if (kind == 0) { std::string o; vs_assert(r.convertObject(o) && o == s[i] + (char)('0' + x[i]), "a call got another result"); } else if (kind == 2) { int32_t o = 0; vs_assert(r.convertObject(o) && o == 25, "a call got another result"); } A.releaseCall(f[i]->first); }
    if (kind == 1) vs_assert(notes == 2, "not executed once each"); if (most == 2) vs_reach("at once"); A.uninit(); B.uninit(); }
  noHandles(); vs_reach("done");
}
extern "C" void vs_main() { switch (vs_param("case", 0)) { case 0: history(); break; case 1: distinct(); break; case 2: kinds(); break; case 3: during(); break; case 4: race(); break; case 5: busy(); break; case 6: nested(); break; case 7: atOnce(); break; } }
