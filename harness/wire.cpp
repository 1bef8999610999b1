// Arbitrary bytes in the call and response queues of a running instance.
#include "rpc.h"
#include <array>
#include <map>
#include <tuple>
using namespace rpc;
namespace {
int ran, argN; int32_t lastArg;
// lenient reference reader: any encoding of the protocol's values is accepted
struct Ref { const Bytes& b; size_t i = 0; bool ok = true, strict = false; Ref(const Bytes& x, size_t at = 0) : b(x), i(at) {}
  uint64_t be(int n) { if (b.size() - i < (size_t)n || i > b.size()) { ok = false; return 0; } uint64_t v = 0; while (n--) v = v << 8 | b[i++]; return v; }
  uint8_t hd() { return (uint8_t)be(1); }
  uint64_t arr() { uint8_t c = hd(); if (!ok) return 0; if ((c & 0xf0) == 0x90) return c & 15; if (c == 0xdc) return be(2); if (c == 0xdd) return be(4); ok = false; return 0; }
  bool isInt(int64_t want) { uint8_t c = hd(); if (!ok) return false; if (c < 0x80) return c == want; if (c >= 0xe0) return (int8_t)c == want; switch (c) { case 0xcc: return (int64_t)be(1) == want && ok; case 0xcd: return (int64_t)be(2) == want && ok; case 0xce: return (int64_t)be(4) == want && ok; case 0xcf: return be(8) == (uint64_t)want && ok; case 0xd0: return (int8_t)be(1) == want && ok; case 0xd1: return (int16_t)be(2) == want && ok; case 0xd2: return (int32_t)be(4) == want && ok; case 0xd3: return (int64_t)be(8) == want && ok; } ok = false; return false; }
  bool i32(int32_t& v) { uint8_t c = hd(); if (!ok) return false; if (c < 0x80 || c >= 0xe0) { v = (int8_t)c; return true; } uint64_t u; switch (c) { case 0xcc: v = (int32_t)be(1); return ok; case 0xcd: v = (int32_t)be(2); return ok; case 0xce: u = be(4); v = (int32_t)u; return ok && u <= 0x7fffffff; case 0xcf: u = be(8); v = (int32_t)u; return ok && u <= 0x7fffffff; case 0xd0: v = (int8_t)be(1); return ok; case 0xd1: v = (int16_t)be(2); return ok; case 0xd2: v = (int32_t)be(4); return ok; case 0xd3: { int64_t s = (int64_t)be(8); v = (int32_t)s; return ok && s == v; } } return false; }
  bool str(size_t& at, size_t& len) { uint8_t c = hd(); if (!ok) return false; uint64_t l; if ((c & 0xe0) == 0xa0) l = c & 31; else if (c == 0xd9 || (c == 0xc4 && !strict)) l = be(1); else if (c == 0xda || (c == 0xc5 && !strict)) l = be(2); else if (c == 0xdb || (c == 0xc6 && !strict)) l = be(4); else { ok = false; return false; } if (!ok || l > b.size() - i) { ok = false; return false; } at = i; len = (size_t)l; i += (size_t)l; return true; }
  bool isStr(const char* s) { size_t a, l; if (!str(a, l) || l != strlen(s)) return false; for (size_t k = 0; k < l; k++) if (b[a + k] != (uint8_t)s[k]) return false; return true; }
  bool skip(int depth = 0) { if (depth > 12) return ok = false; uint8_t c = hd(); if (!ok) return false; uint64_t n;
    if (c < 0x80 || c >= 0xe0 || c == 0xc0 || c == 0xc2 || c == 0xc3) return true; if (c == 0xc1) return ok = false;
    auto take = [&](uint64_t k) { if (!ok || k > b.size() - i) return ok = false; i += (size_t)k; return true; };
    if ((c & 0xe0) == 0xa0) return take(c & 31);
    switch (c) { case 0xc4: case 0xd9: n = be(1); return take(n); case 0xc5: case 0xda: n = be(2); return take(n); case 0xc6: case 0xdb: n = be(4); return take(n); case 0xc7: n = be(1); return take(n + 1); case 0xc8: n = be(2); return take(n + 1); case 0xc9: n = be(4); return take(n + 1);
      case 0xca: return take(4); case 0xcb: return take(8); case 0xcc: case 0xd0: return take(1); case 0xcd: case 0xd1: return take(2); case 0xce: case 0xd2: return take(4); case 0xcf: case 0xd3: return take(8); case 0xd4: return take(2); case 0xd5: return take(3); case 0xd6: return take(5); case 0xd7: return take(9); case 0xd8: return take(17); }
    if ((c & 0xf0) == 0x90) n = c & 15; else if ((c & 0xf0) == 0x80) n = 2 * (c & 15); else if (c == 0xdc) n = be(2); else if (c == 0xdd) n = be(4); else if (c == 0xde) n = 2 * be(2); else n = 2 * be(4);
    for (uint64_t k = 0; k < n && ok; k++) skip(depth + 1); return ok; }
};
// a call of "f" with one int32 argument at offset at
bool callAt(const Bytes& m, size_t at, bool strict, int32_t& arg, size_t& end) { Ref r(m, at); r.strict = strict; if (r.arr() != 5 || !r.ok || !r.isInt(0)) return false; size_t a, l; if (!r.str(a, l) || !r.str(a, l) || !r.isStr("f")) return false; if (r.arr() != (uint64_t)argN || !r.ok) return false; arg = 0; if (argN && !r.i32(arg)) return false; end = r.i; return true; }
// number of calls among the consecutive objects of the message (the argument of the last one in arg)
int callsIn(const Bytes& m, int32_t& arg) { int n = 0; size_t at = 0; while (at < m.size()) { size_t e; if (callAt(m, at, false, arg, e)) { n++; at = e; continue; } Ref r(m, at); if (!r.skip()) break; at = r.i; } return n; }
void mutate(Bytes& m, int how, int k) {
  switch (how) {
    case 0: { unsigned n = vs_choose((unsigned)k + 1, "length"); if (vs_param("exact", 0)) n = (unsigned)k; m.assign(n, 0); if (n) vs_bytes(m.data(), n, "byte"); break; }
    case 1: for (int i = 0; i < k; i++) { unsigned at = vs_choose((unsigned)m.size(), "at"); m[at] = vs_u8("byte"); } break;
    case 2: { unsigned n = vs_choose((unsigned)m.size(), "cut"); m.resize(n); break; }
    case 3: { for (int i = 0; i < k; i++) m.push_back(vs_u8("tail")); break; }
    case 4: { unsigned at = vs_choose((unsigned)m.size() + 1, "at"); m.insert(m.begin() + at, vs_u8("byte")); break; }
    case 5: { unsigned at = vs_choose((unsigned)m.size(), "at"); m.erase(m.begin() + at); break; }
    case 6: { std::vector<unsigned> hd; Ref r(m); uint64_t c = r.arr(); hd.push_back(0); for (uint64_t j = 0; j < c; j++) { hd.push_back((unsigned)r.i); if (j + 1 == c && (m[r.i] & 0xf0) == 0x90) hd.push_back((unsigned)r.i + 1); r.skip(); } unsigned at = hd[vs_choose((unsigned)hd.size(), "at")]; unsigned n = (unsigned)vs_param("kind", 0); static const uint8_t big[] = {0xdd, 0xdb, 0xc6, 0xdf, 0xc9}; m[at] = big[n]; Bytes l; for (int i = 0; i < 4; i++) l.push_back(vs_u8("len")); if (!vs_param("dense", 0)) { uint32_t v = (uint32_t)l[0] << 24 | (uint32_t)l[1] << 16 | (uint32_t)l[2] << 8 | l[3]; vs_assume((v <= 8) | (v == 100) | (v == 341) | (v == 342) | (v == 65536) | (v >= 0x20000000u)); } m.insert(m.begin() + at + 1, l.begin(), l.end()); break; }
    case 7: { // whole elements: dropped, inserted, doubled, replaced, swapped; the array header says so or does not
      size_t base = 0; if (m[0] == 0x95 && vs_choose(2, "in the arguments")) { Ref q(m); q.arr(); for (int j = 0; j < 4; j++) q.skip(); base = q.i; }
      unsigned n = m[base] & 15; Ref r(m, base); r.arr(); Bytes head(m.begin(), m.begin() + (long)base), tail; std::vector<Bytes> el; for (unsigned j = 0; j < n; j++) { size_t a = r.i; r.skip(); el.emplace_back(m.begin() + (long)a, m.begin() + (long)r.i); } tail.assign(m.begin() + (long)r.i, m.end());
      for (int i = 0; i < k; i++) { auto pick = [&]() -> Bytes { switch (vs_choose(6, "element")) { case 0: return NIL(); case 1: return Bytes{(uint8_t)vs_range("int", 0, 127)}; case 2: return encS("f"); case 3: return Bytes{0x90}; case 4: return Bytes{0x91, 5}; default: return Bytes{0x80}; } };
        unsigned op = vs_choose(5, "edit"), sz = (unsigned)el.size(); if (op != 1 && !sz) continue;
        switch (op) { case 0: el.erase(el.begin() + vs_choose(sz, "at")); break; case 1: el.insert(el.begin() + vs_choose(sz + 1, "at"), pick()); break; case 2: { unsigned at = vs_choose(sz, "at"); el.insert(el.begin() + at, Bytes(el[at])); break; } case 3: el[vs_choose(sz, "at")] = pick(); break; case 4: if (sz > 1) { unsigned at = vs_choose(sz - 1, "at"); std::swap(el[at], el[at + 1]); } break; } }
      unsigned cnt = vs_param("header", 1) ? (unsigned)el.size() : n; head.push_back((uint8_t)(0x90 | cnt)); for (auto& e : el) head.insert(head.end(), e.begin(), e.end()); head.insert(head.end(), tail.begin(), tail.end()); m = head; break; }
  }
}
}
static void calls() {
  int how = (int)vs_param("how", 0), k = (int)vs_param("k", 3); bool prior = vs_param("prior", 0); ran = 0;
  { Veigar B; vs_assert(B.init("B", 8, (uint32_t)vs_param("size", 64)), "init"); argN = (int)vs_param("args", 1); if (argN) B.bind("f", [](int32_t a) -> int32_t { ran++; lastArg = a; return a; }); else B.bind("f", []() -> int32_t { ran++; lastArg = 0; return 7; });
  Raw p(8, (int)vs_param("size", 64)); p.create("P"); Raw t(8, (int)vs_param("size", 64)); vs_assert(t.openCall("B"), "open"); Bytes out; Enc a1; a1.arr((unsigned)argN); if (argN) a1.fix(5);
  if (prior) { Raw::put(t.call, callMsg("i0", "P", "f", a1.b)); vs_assert(Raw::take(p.resp, out, 2000), "no answer"); vs_assert(ran == 1, "f"); ran = 0; }
  Bytes m = callMsg("id1", "P", "f", a1.b); mutate(m, how, k); int32_t arg = 0, a0 = 0; size_t end = 0; int may = callsIn(m, arg); bool must = may == 1 && callAt(m, 0, true, a0, end) && end == m.size();
  if (m.empty()) vs_assert(!Raw::put(t.call, m), "empty message accepted"); else { vs_assert(Raw::put(t.call, m), "put"); env_sleep_ms(60); }
  vs_assert(ran <= may, may ? "a call ran more than once" : "a message that is no well-formed call ran a function"); if (ran == 1 && may == 1) vs_assert(lastArg == arg, "wrong argument"); if (must) { vs_assert(ran == 1, "a well-formed call did not run its function"); vs_reach("still a call"); }
  int r0 = ran; while (Raw::take(p.resp, out, 0)) {}
  int32_t x = argN ? (int32_t)vs_range("x", 0, 127) : 0; Enc a2; a2.arr((unsigned)argN); if (argN) a2.fix((unsigned)x); vs_assert(Raw::put(t.call, callMsg("id22", "P", "f", a2.b)), "put"); vs_assert(Raw::take(p.resp, out, 2000), "the next valid call is not answered");
  vs_assert(ran == r0 + 1 && lastArg == x, "the next valid call was not executed as usual"); Dec d(out); vs_assert(d.arr() == 4 && d.get() == 1 && d.str() == "id22" && d.nil(), "the next valid call is answered wrongly"); vs_reach("next ok");
  t.close(); B.uninit(); lockFree("B"); lockFree("P"); p.close(); }
  noHandles();
}
// a function of composite parameters: the argument chosen is replaced by an array of other elements or another kind of value
struct RPt { int32_t x = 77; std::string s; MSGPACK_DEFINE(x, s); };
static void rich() {
  static int32_t g0, g1, g4; static std::string g2; ran = 0;
  { Veigar B; vs_assert(B.init("B", 8, 256), "init"); argN = 1;
  B.bind("f", [](std::array<int32_t, 2> a, std::tuple<int32_t, std::string> t, RPt p, std::pair<std::string, int32_t> q) -> int32_t { ran++; g0 = a[0]; g1 = a[1]; g2 = q.first; g4 = q.second; return std::get<0>(t) + p.x + (int32_t)std::get<1>(t).size() + (int32_t)p.s.size(); });
  B.bind("g", [](int32_t a) -> int32_t { return a; });
  Raw p(8, 256); p.create("P"); Raw t(8, 256); vs_assert(t.openCall("B"), "open"); Bytes out;
  std::vector<Bytes> arg = {Bytes{0x92, 5, 6}, Bytes{0x92, 7, 0xa1, 't'}, Bytes{0x92, 8, 0xa1, 'p'}, Bytes{0x92, 0xa1, 'q', 9}}; int32_t w0 = 5, w1 = 6; bool aOk = true, qOk = true, allOk = true;
  unsigned which = vs_choose(4, "argument"), form = vs_choose(5, "form"); Bytes& m = arg[which];
  switch (form) {
    case 0: { unsigned n = vs_choose(5, "elements"); m.assign(1, (uint8_t)(0x90 | n)); unsigned kinds[4]; uint8_t val[4]; for (unsigned i = 0; i < n; i++) { kinds[i] = i < 2 ? vs_choose(4, "kind") : 0; val[i] = 0; switch (kinds[i]) { case 0: val[i] = (uint8_t)vs_range("int", 0, 127); m.push_back(val[i]); break; case 1: m.push_back(0xa1); m.push_back('f'); break; case 2: m.push_back(0xc0); break; case 3: m.push_back(0x90); break; } }
      if (which == 0) { aOk = allOk = n == 2 && kinds[0] == 0 && kinds[1] == 0; if (aOk) { w0 = val[0]; w1 = val[1]; } } else if (which == 3) qOk = allOk = n == 2 && kinds[0] == 1 && kinds[1] == 0; else allOk = n == 2 && kinds[0] == 0 && kinds[1] == 1; break; }
    case 1: { unsigned n = vs_choose(6, "string"); m.assign(1, (uint8_t)(0xa0 | n)); m.insert(m.end(), n, vs_u8("char")); aOk = which != 0; qOk = which != 3; allOk = false; break; }
    case 2: { unsigned n = vs_choose(3, "map"); m.assign(1, (uint8_t)(0x80 | n)); for (unsigned i = 0; i < n; i++) { m.push_back((uint8_t)i); m.push_back(vs_u8("v") & 0x7f); } aOk = which != 0; qOk = which != 3; allOk = false; break; }
    case 3: { unsigned n = vs_choose(10, "bin"); m.assign(2, 0xc4); m[1] = (uint8_t)n; m.insert(m.end(), n, vs_u8("bin")); aOk = which != 0; qOk = which != 3; allOk = false; break; }
    case 4: { static const uint8_t one[] = {0xc0, 0xc2, 0xc3, 1, 0xff}; m.assign(1, one[vs_choose(5, "value")]); aOk = which != 0; qOk = which != 3; allOk = false; break; }
  }
  Bytes a(1, 0x94); for (auto& x : arg) a.insert(a.end(), x.begin(), x.end());
  vs_assert(Raw::put(t.call, callMsg("id1", "P", "f", a)), "put"); vs_assert(Raw::take(p.resp, out, 2000), "a call whose arguments do not fit is not answered"); Dec d(out); vs_assert(d.arr() == 4 && d.get() == 1 && d.str() == "id1", "response malformed");
  if (!aOk || !qOk) { vs_assert(ran == 0, "function executed with invented values"); vs_assert(!d.nil(), "a call that cannot be executed is reported as successful"); vs_reach("refused"); }
  if (allOk) { vs_assert(ran == 1 && d.nil(), "a well-formed call did not run its function"); vs_assert(g0 == w0 && g1 == w1, "array argument changed"); vs_assert(g2.size() == 1 && g4 < 128, "pair argument changed"); vs_reach("still a call"); }
  vs_assert(ran <= 1, "more than once");
  int32_t x = (int32_t)vs_range("x", 0, 127); Enc a2; a2.arr(1); a2.fix((unsigned)x); vs_assert(Raw::put(t.call, callMsg("id22", "P", "g", a2.b)), "put"); vs_assert(Raw::take(p.resp, out, 2000), "the next valid call is not answered"); Dec e(out); vs_assert(e.arr() == 4 && e.get() == 1 && e.str() == "id22" && e.nil(), "the next valid call is answered wrongly"); vs_reach("next ok");
  t.close(); B.uninit(); lockFree("B"); lockFree("P"); p.close(); }
  noHandles();
}
static void responses() {
  int how = (int)vs_param("how", 0), k = (int)vs_param("k", 3); bool cb = vs_param("cb", 0); static int done; static int64_t got; static bool succ; done = 0;
  { Veigar A; vs_assert(A.init("A", 8, 64), "init"); Raw t; t.create("T"); Raw a; a.openResp("A"); std::shared_ptr<AsyncCallResult> f1, f2; Bytes out;
  if (cb) A.asyncCall([](const CallResult& r) { done++; succ = r.isSuccess(); int32_t o = -1; if (const_cast<CallResult&>(r).convertObject(o)) got = o; }, "T", 3000, "f", 1); else f1 = A.asyncCall("T", 3000, "f", 1);
  vs_assert(Raw::take(t.call, out, 1000), "call not delivered"); Call c1 = parseCall(out); vs_assert(c1.ok && c1.caller == "A" && c1.func == "f", "call message malformed");
  // ids are long; a response to a short unknown id keeps the mutated message small
  bool real = vs_param("real", 0); Enc one; one.fix(9); Bytes m = respMsg(real ? c1.id : std::string("zz"), NIL(), one.b); size_t idAt = 3; 
  if (real) { // mutate outside the id
    unsigned at[] = {0, 1, 2, (unsigned)m.size() - 2, (unsigned)m.size() - 1}; if (how == 1) m[at[vs_choose(5, "at")]] = vs_u8("byte"); else if (how == 2) m.resize(vs_choose(2, "cut") ? m.size() - 1 : m.size() - 2); else if (how == 3) m.push_back(vs_u8("tail")); else if (how == 7) mutate(m, how, k); (void)idAt; }
  else mutate(m, how, k);
  // well-formed answer to the call?
  Ref r(m); bool wf = r.arr() == 4 && r.ok && r.isInt(1); if (wf) wf = r.isStr(c1.id.c_str()); if (wf) { wf = r.skip() && r.skip(); }
  if (m.empty()) vs_assert(!Raw::put(a.resp, m), "empty accepted"); else { vs_assert(Raw::put(a.resp, m), "put"); env_sleep_ms(60); }
  bool early = cb ? done > 0 : f1->second.wait_for(std::chrono::seconds(0)) == std::future_status::ready;
  if (!wf) vs_assert(!early, "a malformed or foreign response completed the call");
  if (early) vs_reach("answered by the message");
  // now the proper response, twice
  int32_t x = (int32_t)vs_range("x", 0, 127); Enc ex; ex.fix((unsigned)x); Bytes okm = respMsg(c1.id, NIL(), ex.b); Raw::put(a.resp, okm); env_sleep_ms(20); Raw::put(a.resp, okm); Raw::put(a.resp, respMsg("unknown", NIL(), NIL())); env_sleep_ms(40);
  if (cb) { vs_assert(done == 1, "callback count"); if (!early) vs_assert(succ && got == x, "answer changed by an earlier message"); }
  else { vs_assert(f1->second.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "the proper response was not processed"); CallResult cr = f1->second.get(); int32_t o = 0; if (!early) vs_assert(cr.isSuccess() && cr.convertObject(o) && o == x, "answer changed by an earlier message"); A.releaseCall(f1->first); }
  // and another call
  f2 = A.asyncCall("T", 3000, "g", 2); vs_assert(Raw::take(t.call, out, 1000), "second call not delivered"); Call c2 = parseCall(out); vs_assert(c2.ok, "second call malformed"); int32_t y = (int32_t)vs_range("y", 0, 127); Enc ey; ey.fix((unsigned)y); Raw::put(a.resp, respMsg(c2.id, NIL(), ey.b)); env_sleep_ms(40);
  vs_assert(f2->second.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "later call not completed"); CallResult cr = f2->second.get(); int32_t o = 0; vs_assert(cr.isSuccess() && cr.convertObject(o) && o == y, "later call got a wrong answer"); A.releaseCall(f2->first); vs_reach("next ok");
  a.close(); A.uninit(); lockFree("A"); lockFree("T"); t.close(); }
  noHandles();
}
// error field of any shape
extern "C" void vs_main() { switch (vs_param("case", 0)) { case 0: calls(); break; case 1: responses(); break; case 3: rich(); break; } }
