// A delivered call runs the named function once with the caller's values and returns what the function returned.
#include "rpc.h"
#include <map>
#include <set>
#include <optional>
#include <string_view>
#include <array>
#include <tuple>
#include <stdexcept>
using namespace rpc;
namespace {
struct Pt { int32_t x; uint8_t y; std::string s; MSGPACK_DEFINE(x, y, s); };
int calls; int64_t iv[8]; std::string sv[4]; uint64_t fbits;
int64_t f_ints(int32_t a, uint8_t b, int64_t c, uint16_t d) { calls++; iv[0] = a; iv[1] = b; iv[2] = c; iv[3] = d; return c ^ 0x55; }
uint64_t f_uints(uint64_t a, int8_t b, uint32_t c, int16_t d) { calls++; iv[0] = (int64_t)a; iv[1] = b; iv[2] = c; iv[3] = d; return a + 1; }
double f_real(double a, float b, bool c) { calls++; memcpy(&iv[0], &a, 8); uint32_t t; memcpy(&t, &b, 4); iv[1] = t; iv[2] = c; return a; }
std::string f_str(std::string a, const std::string& b) { calls++; sv[0] = a; sv[1] = b; return b; }
std::vector<int32_t> f_vec(std::vector<int32_t> v, std::map<std::string, int32_t> m, std::vector<std::string> t) { calls++; iv[0] = (int64_t)v.size(); for (size_t i = 0; i < v.size() && i < 3; i++) iv[1 + i] = v[i]; iv[5] = m.count("k") ? m["k"] : -1; iv[6] = (int64_t)m.size(); sv[0] = t.size() > 0 ? t[0] : ""; iv[4] = (int64_t)t.size(); return v; }
Pt f_user(Pt p, int32_t k) { calls++; iv[0] = p.x; iv[1] = p.y; sv[0] = p.s; iv[2] = k; p.x = k; return p; }
int32_t f_none() { calls++; return (int32_t)iv[7]; }
void f_void(int32_t a) { calls++; iv[0] = a; }
void f_nothing() { calls++; }
std::string symStr(const char* n, int max) { unsigned l = vs_choose(max + 1, "len"); std::string s; for (unsigned i = 0; i < l; i++) s.push_back((char)vs_u8(n)); return s; }
bool eq(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; uint8_t d = 0; for (size_t i = 0; i < a.size(); i++) d |= (uint8_t)a[i] ^ (uint8_t)b[i]; return d == 0; }
struct Inst { Veigar v; const char* n; Inst(const char* n_, int cap = 8, int sz = 256) : n(n_) { vs_assert(v.init(n_, cap, sz), "init failed"); } ~Inst() { v.uninit(); } };
void good(CallResult& r) { vs_assert(r.isSuccess(), "a valid call failed"); vs_assert(calls == 1, "function did not run exactly once"); }
}
static void fidelity(int sig) {
  bool two = vs_param("two", 0); calls = 0; { Inst callee("B"); std::unique_ptr<Inst> cl; if (two) cl.reset(new Inst("A")); Veigar& A = two ? cl->v : callee.v; Veigar& B = callee.v;
  switch (sig) {
    case 0: { B.bind("f", f_ints); int32_t a = vs_i32("a"); uint8_t b = vs_u8("b"); int64_t c = vs_i64("c"); uint16_t d = vs_u16("d"); CallResult r = A.syncCall("B", 5000, "f", a, b, c, d); good(r); vs_assert(iv[0] == a && iv[1] == b && iv[2] == c && iv[3] == d, "argument changed"); int64_t o = 0; vs_assert(r.convertObject(o), "result not convertible"); vs_assert(o == (c ^ 0x55), "result changed"); break; }
    case 1: { B.bind("f", f_uints); uint64_t a = vs_u64("a"); int8_t b = (int8_t)vs_u8("b"); uint32_t c = vs_u32("c"); int16_t d = (int16_t)vs_u16("d"); CallResult r = A.syncCall("B", 5000, "f", a, b, c, d); good(r); vs_assert((uint64_t)iv[0] == a && iv[1] == b && iv[2] == c && iv[3] == d, "argument changed"); uint64_t o = 0; vs_assert(r.convertObject(o), "result not convertible"); vs_assert(o == a + 1, "result changed"); break; }
    case 2: { B.bind("f", f_real); uint64_t a = vs_u64("a"); uint32_t b = vs_u32("b"); bool c = vs_bool("c"); vs_assume(a != 0x8000000000000000ull && b != 0x80000000u); double da; float fb; memcpy(&da, &a, 8); memcpy(&fb, &b, 4); CallResult r = A.syncCall("B", 5000, "f", da, fb, c); good(r); uint64_t x; memcpy(&x, &iv[0], 8);
      if (da == da) vs_assert(x == a, "double argument changed"); if (fb == fb) vs_assert((uint32_t)iv[1] == b, "float argument changed"); vs_assert((bool)iv[2] == c, "bool argument changed"); double o = 0; vs_assert(r.convertObject(o), "result not convertible"); uint64_t ob; memcpy(&ob, &o, 8); if (da == da) vs_assert(ob == a, "result changed"); break; }
    case 3: { B.bind("f", f_str); int m = (int)vs_param("len", 3); std::string a = symStr("a", m), b = symStr("b", m); CallResult r = A.syncCall("B", 5000, "f", a, b); good(r); vs_assert(eq(sv[0], a) && eq(sv[1], b), "string argument changed"); std::string o; vs_assert(r.convertObject(o), "result not convertible"); vs_assert(eq(o, b), "result changed"); break; }
    case 4: { B.bind("f", f_vec); unsigned n = vs_choose(4, "n"); std::vector<int32_t> v; for (unsigned i = 0; i < n; i++) v.push_back(i == 0 ? vs_i32("v") : (int32_t)i * 1000); std::map<std::string, int32_t> mm; int32_t k = vs_i32("k"); unsigned mn = vs_choose(2, "m"); if (mn) mm["k"] = k; std::vector<std::string> t; unsigned tn = vs_choose(2, "t"); char c = (char)vs_u8("ch"); if (tn) t.push_back(std::string(2, c));
      CallResult r = A.syncCall("B", 5000, "f", v, mm, t); good(r); vs_assert(iv[0] == (int64_t)n, "vector length changed"); for (unsigned i = 0; i < n; i++) vs_assert(iv[1 + i] == v[i], "vector element changed"); vs_assert(iv[6] == (int64_t)mn && (!mn || iv[5] == k), "map changed"); vs_assert(iv[4] == (int64_t)tn && (!tn || (sv[0].size() == 2 && sv[0][1] == c)), "vector of strings changed"); std::vector<int32_t> o; vs_assert(r.convertObject(o), "result not convertible"); vs_assert(o.size() == n && (n == 0 || o[0] == v[0]), "result changed"); break; }
    case 5: { B.bind("f", f_user); Pt p; p.x = vs_i32("x"); p.y = vs_u8("y"); p.s = symStr("s", 2); int32_t k = vs_i32("k"); CallResult r = A.syncCall("B", 5000, "f", p, k); good(r); vs_assert(iv[0] == p.x && iv[1] == p.y && iv[2] == k && eq(sv[0], p.s), "argument changed"); Pt o; vs_assert(r.convertObject(o), "result not convertible"); vs_assert(o.x == k && o.y == p.y && eq(o.s, p.s), "result changed"); break; }
    case 6: { B.bind("f", f_none); B.bind("g", f_nothing); B.bind("h", f_void); iv[7] = vs_i32("ret"); CallResult r = A.syncCall("B", 5000, "f"); good(r); int32_t o = 0; vs_assert(r.convertObject(o) && o == (int32_t)iv[7], "result changed"); calls = 0; CallResult r2 = A.syncCall("B", 5000, "g"); good(r2); int32_t z = 77; vs_assert(!r2.convertObject(z) && z == 77, "a void result converted to a value"); calls = 0; int32_t a = vs_i32("a"); CallResult r3 = A.syncCall("B", 5000, "h", a); good(r3); vs_assert(iv[0] == a, "argument changed"); break; }
    case 7: { // functors and lambdas with state
      int32_t base = vs_i32("base"); B.bind("f", [base](int32_t a, int32_t b) -> int32_t { calls++; return (int32_t)((uint32_t)base + (uint32_t)a * 3u + (uint32_t)b); }); int32_t a = vs_i32("a"), b = vs_i32("b"); CallResult r = A.syncCall("B", 5000, "f", a, b); good(r); int32_t o = 0; vs_assert(r.convertObject(o), "not convertible"); vs_assert(o == (int32_t)((uint32_t)base + (uint32_t)a * 3u + (uint32_t)b), "result changed"); break; }
    case 8: { // const char*, char, enum-free nested containers
      B.bind("f", [](std::string s, std::vector<std::vector<int32_t>> vv, std::tuple<int32_t, std::string> t) -> std::tuple<std::string, int32_t> { calls++; sv[0] = s; iv[0] = (int64_t)vv.size(); iv[1] = vv.size() > 1 && vv[1].size() > 0 ? vv[1][0] : -1; iv[2] = std::get<0>(t); return std::make_tuple(std::get<1>(t) + s, (int32_t)vv.size()); });
      int32_t e = vs_i32("e"), q = vs_i32("q"); std::vector<std::vector<int32_t>> vv(2); vv[1].push_back(e); char buf[3] = {(char)vs_u8("c0"), 'z', 0}; vs_assume(buf[0] != 0); CallResult r = A.syncCall("B", 5000, "f", std::string(buf), vv, std::make_tuple(q, std::string("t"))); good(r); vs_assert(iv[0] == 2 && iv[1] == e && iv[2] == q && sv[0].size() == 2 && sv[0][0] == buf[0], "argument changed"); std::tuple<std::string, int32_t> o; vs_assert(r.convertObject(o), "not convertible"); vs_assert(std::get<0>(o).size() == 3 && std::get<0>(o)[1] == buf[0] && std::get<1>(o) == 2, "result changed"); break; }
    case 9: { // views into the received message stay valid while the function runs
      B.bind("f", [](std::string_view a, const std::string_view& b, int32_t k) -> std::string { calls++; env_sleep_ms(2); sv[0] = std::string(a); sv[1] = std::string(b); iv[0] = k; return std::string(a) + std::string(b); }); std::string a = symStr("a", 2), b = symStr("b", 2); int32_t k = vs_i32("k");
      CallResult r = A.syncCall("B", 5000, "f", std::string_view(a), b, k); good(r); vs_assert(eq(sv[0], a) && eq(sv[1], b) && iv[0] == k, "argument changed"); std::string o; vs_assert(r.convertObject(o), "result not convertible"); vs_assert(eq(o, a + b), "result changed"); break; }
    case 10: { // optional values and sets
      B.bind("f", [](std::optional<int32_t> a, std::set<int32_t> t, std::optional<std::string> n) -> std::optional<int32_t> { calls++; iv[0] = a ? *a : 0; iv[1] = (bool)a; iv[2] = (int64_t)t.size(); iv[3] = t.empty() ? 0 : *t.begin(); iv[4] = (bool)n; sv[0] = n ? *n : ""; if (!a) return std::nullopt; return *a; });
      std::optional<int32_t> a; std::set<int32_t> t; std::optional<std::string> n; if (vs_choose(2, "a")) a = vs_i32("av"); unsigned m = vs_choose(3, "t"); int32_t e = vs_i32("e"); vs_assume(e < 100); if (m > 0) t.insert(e); if (m > 1) t.insert(100); if (vs_choose(2, "n")) n = symStr("s", 1);
      CallResult r = A.syncCall("B", 5000, "f", a, t, n); good(r); vs_assert(iv[1] == (bool)a && (!a || iv[0] == *a) && iv[2] == (int64_t)m && (!m || iv[3] == e) && iv[4] == (bool)n && (!n || eq(sv[0], *n)), "argument changed"); std::optional<int32_t> o; if (!a) { o = 5; vs_assert(r.convertObject(o) && !o, "result changed"); } else vs_assert(r.convertObject(o) && o && *o == *a, "result changed"); break; }
    case 11: { // the other basic types, literals, bytes
      B.bind("f", [](char a, wchar_t b, long c, unsigned long long d, int8_t e, bool g, std::string lit, std::vector<uint8_t> buf) -> unsigned char { calls++; iv[0] = a; iv[1] = b; iv[2] = c; iv[3] = (int64_t)d; iv[4] = e; iv[5] = g; sv[0] = lit; sv[1].assign(buf.begin(), buf.end()); return (unsigned char)a; });
      char a = (char)vs_u8("a"); wchar_t b = (wchar_t)vs_i32("b"); long c = (long)vs_i64("c"); unsigned long long d = vs_u64("d"); int8_t e = (int8_t)vs_u8("e"); bool g = vs_bool("g"); unsigned n = vs_choose(3, "n"); std::vector<uint8_t> buf; for (unsigned i = 0; i < n; i++) buf.push_back(vs_u8("byte"));
      CallResult r = A.syncCall("B", 5000, "f", a, b, c, d, e, g, "lit", buf); good(r); vs_assert(iv[0] == a && iv[1] == b && iv[2] == c && (unsigned long long)iv[3] == d && iv[4] == e && iv[5] == g && sv[0] == "lit" && eq(sv[1], std::string(buf.begin(), buf.end())), "argument changed"); unsigned char o = 0; vs_assert(r.convertObject(o) && o == (unsigned char)a, "result changed"); break; }
    case 12: { // the three ways of calling take the same values to the function and back
      B.bind("f", [](std::string a, int32_t b, double c, std::vector<uint8_t> d) -> std::string { calls++; sv[0] = a; iv[0] = b; memcpy(&iv[1], &c, 8); iv[2] = d.empty() ? -1 : d[0]; return a + "!"; }); int32_t b = vs_i32("b"); std::vector<uint8_t> d; if (vs_choose(2, "d")) d.push_back(vs_u8("d0")); std::string a = symStr("a", 2); double c = 3.14; std::string o; bool ok = false;
      if (vs_choose(2, "callback")) { int n = 0; A.asyncCall([&](const CallResult& r) { n++; ok = r.isSuccess() && const_cast<CallResult&>(r).convertObject(o); }, "B", 5000, "f", a, b, c, d); for (int i = 0; i < 40 && !n; i++) env_sleep_ms(100); vs_assert(n == 1, "no result"); }
      else { auto f = A.asyncCall("B", 5000, "f", a, b, c, d); vs_assert(f && f->second.valid(), "no future"); CallResult r = f->second.get(); ok = r.isSuccess() && r.convertObject(o); A.releaseCall(f->first); }
      vs_assert(ok && calls == 1, "a valid call failed"); double x; memcpy(&x, &iv[1], 8); vs_assert(eq(sv[0], a) && iv[0] == b && x == c && iv[2] == (d.empty() ? -1 : d[0]), "argument changed"); vs_assert(eq(o, a + "!"), "result changed"); break; }
    case 13: { // parameters and results by reference, many parameters
      static std::string held; B.bind("r", [](std::string& a, const int32_t& b, std::vector<int32_t>& v) -> const std::string& { calls++; iv[0] = b; v.push_back(b); iv[1] = (int64_t)v.size(); a += "+"; held = a; return held; }); B.bind("m", [](int8_t a, int8_t b, int8_t c, int8_t d, int8_t e, int8_t f, int8_t g, int8_t h, std::string i, int8_t j, int8_t k, int8_t l) -> uint64_t { calls++; sv[0] = i; iv[0] = j; iv[1] = k; iv[2] = l; uint64_t x = 0; for (int8_t q : {a, b, c, d, e, f, g, h}) x = x << 8 | (uint8_t)q; return x; });
      std::string a = symStr("a", 2); int32_t b = vs_i32("b"); for (int i = 0; i < 2; i++) { calls = 0; CallResult r = A.syncCall("B", 5000, "r", a, b, std::vector<int32_t>(1, 7)); good(r); vs_assert(iv[0] == b && iv[1] == 2, "argument changed"); std::string o; vs_assert(r.convertObject(o) && eq(o, a + "+"), "result changed"); }
      uint64_t w = vs_u64("w"); auto by = [w](int i) { return (int8_t)(w >> (56 - 8 * i)); }; int8_t l = (int8_t)vs_u8("l"); vs_assume((uint8_t)by(0) < 128 && (uint8_t)by(1) < 128 && (uint8_t)by(2) < 128 && by(3) < -32 && (uint8_t)by(4) < 128 && (uint8_t)by(5) < 128 && (uint8_t)by(6) < 128); calls = 0; CallResult r = A.syncCall("B", 5000, "m", by(0), by(1), by(2), by(3), by(4), by(5), by(6), by(7), "x", 1, 2, l); good(r); vs_assert(sv[0] == "x" && iv[0] == 1 && iv[1] == 2 && iv[2] == l, "argument changed"); uint64_t o = 0; vs_assert(r.convertObject(o) && o == w, "result changed"); held.clear(); held.shrink_to_fit(); break; }
  }
  lockFree("B"); vs_assert(env_threads_alive() > 1, "threads"); }
  noHandles(); vs_assert(env_threads_alive() == 1, "threads left"); vs_reach("done");
}
// errors are reported and nothing runs with invented values
static void errors() {
  calls = 0; { Inst b("B"); Veigar& B = b.v; B.bind("f", f_void); B.bind("f2", f_ints); B.bind("s", f_str); B.bind("n", f_nothing); B.bind("a2", [](std::array<int32_t, 2>) { calls++; }); B.bind("c4", [](std::array<char, 4>) { calls++; }); B.bind("p", [](std::pair<int32_t, std::string>) { calls++; }); B.bind("m", [](std::map<std::string, int32_t>, std::vector<std::string>) { calls++; }); B.bind("b", [](bool, double) { calls++; }); B.bind("t", [](int32_t k) -> int32_t { calls++; if (k & 1) throw std::runtime_error("why it failed"); if (k & 2) throw 5; return k; });
  CallResult r; int which = (int)vs_choose(25, "which"); bool ran = false; std::string needle;
  switch (which) {
    case 0: { std::string n = symStr("name", 2); vs_assume(!(n.size() == 1 && (n[0] == 'f' || n[0] == 's' || n[0] == 'n' || n[0] == 't'))); vs_assume(!(n.size() == 2 && n[0] == 'f' && n[1] == '2')); r = B.syncCall("B", 5000, n, 1); break; }
    case 1: r = B.syncCall("B", 5000, "f"); break;                                  // too few
    case 2: r = B.syncCall("B", 5000, "f", vs_i32("a"), vs_i32("b")); break;        // too many
    case 3: r = B.syncCall("B", 5000, "f", std::string("1")); break;                // wrong type
    case 4: { int64_t big = vs_i64("big"); vs_assume(big != (int32_t)big); r = B.syncCall("B", 5000, "f", big); break; }
    case 5: r = B.syncCall("B", 5000, "f2", 1, 2, 3); break;
    case 6: r = B.syncCall("B", 5000, "f2", 1, vs_i32("neg") | (int32_t)0x80000000, 3, 4); break; // negative into uint8
    case 7: r = B.syncCall("B", 5000, "s", std::string("a"), 5); break;
    case 8: r = B.syncCall("B", 5000, "n", vs_i32("extra")); break;                 // zero-argument function called with one
    case 9: { int32_t k = vs_i32("k"); vs_assume(k & 1); r = B.syncCall("B", 5000, "t", k); ran = true; needle = "why it failed"; break; }
    case 10: { int32_t k = vs_i32("k"); vs_assume((k & 3) == 2); r = B.syncCall("B", 5000, "t", k); ran = true; break; }
    case 11: r = B.syncCall("B", 5000, "f", std::vector<int32_t>{1, 2}); break;
    case 12: { double d = 1.5; r = B.syncCall("B", 5000, "f", d); break; }
    case 13: r = B.syncCall("B", 5000, "s"); break;
    case 14: r = B.syncCall("B", 5000, "f2", 1, 2, 3, 4, 5); break;
    case 15: { unsigned n = vs_choose(5, "elements"); vs_assume(n != 2); r = B.syncCall("B", 5000, "a2", std::vector<int32_t>(n, vs_i32("e"))); break; } // an array of another length
    case 16: { unsigned n = vs_choose(7, "chars"); vs_assume(n != 4); r = B.syncCall("B", 5000, "c4", std::string(n, (char)vs_u8("e"))); break; }
    case 17: { unsigned n = vs_choose(4, "elements"); r = B.syncCall("B", 5000, "p", std::vector<int32_t>(n, vs_i32("e"))); break; }
    case 18: r = B.syncCall("B", 5000, "m", std::vector<int32_t>{1, vs_i32("e")}, std::vector<std::string>{"x"}); break; // array for a map
    case 19: r = B.syncCall("B", 5000, "m", std::map<std::string, int32_t>{{"k", 1}}, std::vector<int32_t>{vs_i32("e")}); break;
    case 20: r = B.syncCall("B", 5000, "m", std::map<int32_t, int32_t>{{vs_i32("e"), 1}}, std::vector<std::string>{}); break;
    case 21: r = B.syncCall("B", 5000, "b", vs_i32("e"), 1.5); break;               // number for a bool
    case 22: r = B.syncCall("B", 5000, "b", true, std::string("1.5")); break;
    case 23: r = B.syncCall("B", 5000, "s", std::string("a"), vs_i32("e")); break;
    case 24: r = B.syncCall("B", 5000, "f", vs_bool("e")); break;                   // bool for a number
  }
  vs_assert(!r.isSuccess(), "a call that cannot be executed as asked was reported as successful"); vs_assert(!r.errorMessage.empty(), "no error text"); vs_assert(calls == (ran ? 1 : 0), "function executed although the call does not fit it");
  if (!needle.empty()) vs_assert(r.errorMessage.find(needle) != std::string::npos, "the cause is missing in the error text"); int32_t o = 7; vs_assert(!r.convertObject(o) && o == 7, "a failed call produced a value"); vs_reach("refused");
  calls = 0; int32_t a = vs_i32("after"); CallResult r2 = B.syncCall("B", 5000, "f", a); vs_assert(r2.isSuccess() && calls == 1 && iv[0] == a, "later call affected"); lockFree("B"); }
  noHandles(); vs_reach("done");
}
// a result belongs to who received it: it outlives the call, the instances and being moved
static void keeps() {
  calls = 0; std::string a = symStr("a", 2); int32_t k = vs_i32("k"); CallResult r, err; bool cbk = vs_choose(2, "callback"); std::string_view before;
  { CallResult kept; { Inst callee("B"); Inst cl("A"); Veigar& A = cl.v; callee.v.bind("f", [](std::string s, int32_t n) -> std::tuple<std::string, int32_t, std::vector<std::string>> { calls++; return std::make_tuple(s + "x", n, std::vector<std::string>{s, "second"}); });
    if (cbk) { int n = 0; A.asyncCall([&](const CallResult& c) { kept = std::move(const_cast<CallResult&>(c)); n++; }, "B", 5000, "f", a, k); for (int i = 0; i < 40 && !n; i++) env_sleep_ms(100); vs_assert(n == 1, "no result"); }
    else { auto f = A.asyncCall("B", 5000, "f", a, k); kept = f->second.get(); A.releaseCall(f->first); }
    err = A.syncCall("B", 5000, "absent", k); A.syncCall("B", 5000, "f", std::string("other"), 1); vs_assert(kept.isSuccess(), "a valid call failed"); calls = 0; }
  std::tuple<std::string_view, int32_t, std::vector<std::string>> v; vs_assert(kept.convertObject(v), "a result cannot be converted when the instances are gone"); before = std::get<0>(v); vs_assert(eq(std::string(before), a + "x"), "a result changed when the instances were gone");
  CallResult moved(std::move(kept)); int32_t z = 7; vs_assert(!kept.convertObject(z) && z == 7, "a moved-from result has a value"); r = std::move(moved); CallResult& self = r; r = std::move(self); vs_assert(eq(std::string(before), a + "x"), "moving a result changed it"); }
  for (int i = 0; i < 2; i++) { std::tuple<std::string, int32_t, std::vector<std::string>> t; vs_assert(r.isSuccess() && r.convertObject(t) && eq(std::get<0>(t), a + "x") && std::get<1>(t) == k && std::get<2>(t).size() == 2 && eq(std::get<2>(t)[0], a) && std::get<2>(t)[1] == "second", "a kept result changed"); }
  vs_assert(!err.isSuccess() && !err.errorMessage.empty(), "a kept error changed"); CallResult empty; int32_t z = 7; vs_assert(!empty.isSuccess() && !empty.convertObject(z) && z == 7, "an empty result has a value"); r = std::move(empty); err = CallResult(); vs_assert(!r.isSuccess() && !r.convertObject(z) && z == 7, "a replaced result kept its value");
  noHandles(); vs_assert(env_threads_alive() == 1, "threads left"); vs_reach("done");
}
extern "C" void vs_main() { int c = (int)vs_param("case", 0); if (c < 20) fidelity(c); else if (c == 20) errors(); else if (c == 21) keeps(); }
