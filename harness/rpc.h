// Helpers for harnesses that drive whole instances: a raw peer speaking the wire format through the queue class,
// an independent encoder for the few message shapes the protocol has, and reference checks.
#pragma once
#include "env.h"
#include "veigar/veigar.h"
#include "message_queue.h"
#include "semaphore.h"
#include <string>
#include <vector>
#include <memory>
#include <string.h>
using namespace veigar;
typedef std::vector<uint8_t> Bytes;
namespace rpc {
inline void leakStart(); 
// ---- minimal encoder, independent of the library
struct Enc { Bytes b;
  Enc& u8(uint8_t v) { b.push_back(v); return *this; }
  Enc& arr(unsigned n) { if (n < 16) u8(0x90 | n); else u8(0xdc).u8(n >> 8).u8(n); return *this; }
  Enc& str(const std::string& s) { size_t n = s.size(); if (n < 32) u8(0xa0 | (uint8_t)n); else if (n < 256) u8(0xd9).u8((uint8_t)n); else u8(0xda).u8((uint8_t)(n >> 8)).u8((uint8_t)n); for (char c : s) b.push_back((uint8_t)c); return *this; }
  Enc& nil() { return u8(0xc0); }
  Enc& i32(int32_t v) { u8(0xd2); for (int i = 3; i >= 0; i--) u8((uint8_t)((uint32_t)v >> (8 * i))); return *this; }
  Enc& fix(unsigned v) { return u8((uint8_t)v & 0x7f); }
  Enc& raw(const Bytes& x) { b.insert(b.end(), x.begin(), x.end()); return *this; }
};
inline Bytes callMsg(const std::string& id, const std::string& caller, const std::string& func, const Bytes& argsArray) { Enc e; e.arr(5).fix(0).str(id).str(caller).str(func).raw(argsArray); return e.b; }
inline Bytes respMsg(const std::string& id, const Bytes& err, const Bytes& res) { Enc e; e.arr(4).fix(1).str(id).raw(err).raw(res); return e.b; }
inline Bytes NIL() { return Bytes{0xc0}; }
inline Bytes encI(int32_t v) { Enc e; e.i32(v); return e.b; }
inline Bytes encS(const std::string& s) { Enc e; e.str(s); return e.b; }
// ---- minimal decoder for messages produced by the library (structure concrete, leaves may be symbolic)
struct Dec { const uint8_t* p; size_t n, i = 0; bool ok = true; Dec(const Bytes& b) : p(b.data()), n(b.size()) {}
  uint8_t get() { if (i >= n) { ok = false; return 0; } return p[i++]; }
  unsigned arr() { uint8_t c = get(); if ((c & 0xf0) == 0x90) return c & 15; if (c == 0xdc) { unsigned a = get(); return a << 8 | get(); } ok = false; return 0; }
  std::string str() { uint8_t c = get(); size_t l; if ((c & 0xe0) == 0xa0) l = c & 31; else if (c == 0xd9) l = get(); else if (c == 0xda) { l = get(); l = l << 8 | get(); } else { ok = false; return ""; } if (l > n - i) { ok = false; return ""; } std::string s((const char*)p + i, l); i += l; return s; }
  bool nil() { if (i < n && p[i] == 0xc0) { i++; return true; } return false; }
};
// ---- raw peer: owns (or opens) the queues of a channel and moves byte strings
struct Raw { MessageQueue call, resp; std::string name; bool own = false;
  Raw(int M = 8, int E = 64) : call(M, E), resp(M, E) {}
  void create(const std::string& n) { name = n; vs_assert(call.create(n + "_call") && resp.create(n + "_resp"), "raw peer: create"); own = true; }
  bool openCall(const std::string& n) { return call.open(n + "_call"); }
  bool openResp(const std::string& n) { return resp.open(n + "_resp"); }
  static bool put(MessageQueue& q, const Bytes& m) { if (!q.processRWLock(1000)) return false; bool w, r = q.checkSpaceSufficient((int64_t)m.size(), w) && q.pushBack(m.data(), (int64_t)m.size()); q.processRWUnlock(); if (r) q.notifyRead(); return r; }
  static bool take(MessageQueue& q, Bytes& m, int64_t ms) { if (!q.waitForRead(ms)) return false; if (!q.processRWLock(1000)) return false; m.assign(4096, 0); int64_t w = 0; bool r = q.msgNumber() > 0 && q.popFront(m.data(), (int64_t)m.size(), w); q.processRWUnlock(); m.resize(r ? (size_t)w : 0); return r; }
  void close() { call.close(); resp.close(); }
};
struct Call { std::string id, caller, func; Bytes args; bool ok = false; };
inline Call parseCall(const Bytes& m) { Call c; Dec d(m); if (d.arr() != 5) return c; if (d.get() != 0) return c; c.id = d.str(); c.caller = d.str(); c.func = d.str(); if (!d.ok) return c; c.args.assign(m.begin() + d.i, m.end()); c.ok = true; return c; }
inline void noHandles(const char* id = "handles leaked") { vs_assert(env.fds == 0 && env.maps == 0 && env.sems == 0, id); vs_assert(env.badClose == 0 && env.badUnmap == 0, "closed or unmapped something invalid"); }
inline void lockFree(const char* ch) { std::string a = std::string(ch) + "_call_rwlock", b = std::string(ch) + "_resp_rwlock"; int x = env_sem_value(a.c_str()), y = env_sem_value(b.c_str()); vs_assert(x == 1 || x == -1, "call queue lock not free after traffic"); vs_assert(y == 1 || y == -1, "response queue lock not free after traffic"); }
}
