// vsym: symbolic executor for LLVM 18 bitcode, deciding branch feasibility, assertions and memory
// safety with Z3.  See ../DESIGN.md for the semantics it implements.
#include "expr.h"
#include "race.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <functional>
#include <deque>
#include <unistd.h>
#include <sys/resource.h>
using namespace llvm;

static const u8 UNINIT = 0xBE;
struct Val; struct Agg;
struct Val { u64 c = 0; E e = nullptr; const Agg* a = nullptr; Val() {} Val(u64 x) : c(x) {} };
struct Agg { std::vector<Val> v; };
static inline Val ofE(E e) { Val v; if (isC(e)) v.c = e->c; else v.e = e; return v; }
static inline E toE(const Val& v, u32 w) { return v.e ? v.e : mkC(v.c, w); }

// ------------------------------------------------------------------ memory
struct Page { u8 c[256]; std::unique_ptr<E[]> s;
  Page() {}
  Page(const Page& o) { memcpy(c, o.c, 256); if (o.s) { s.reset(new E[256]); memcpy(s.get(), o.s.get(), 256 * sizeof(E)); } } };
struct LNode { int kind; E off; E len; std::vector<E> bytes; std::shared_ptr<LNode> src; E srcOff; struct LBase* srcBase; u8 fill; std::shared_ptr<LNode> next; };
struct LBase { bool isArr; u32 arr; u8 fill; };
enum OKind : u8 { O_GLOBAL, O_STACK, O_HEAP, O_NEW, O_NEWARR, O_EXC, O_LAZY };
struct Obj { u64 base; u64 size; E sizeE = nullptr; OKind kind; bool ro = false; u8 fill = UNINIT; bool lazy = false; bool noalloccount = false;
  std::vector<std::shared_ptr<Page>> pages; std::string name; std::shared_ptr<LNode> head; LBase* lbase = nullptr; };
struct Chunk { std::shared_ptr<Obj> o[64]; int live = 0; };
static const u64 OBJ_SHIFT = 28, OBJ_OFF = 0x10000, OBJ_MAX = (1ull << 28) - 0x20000, HUGE_BASE = 1ull << 63, HUGE_OFF = 1ull << 40;
static const u64 FUNC_BASE = 1ull << 62;

struct Ins; struct FuncInfo;
struct Frame { FuncInfo* f; u32 pc = 0; std::vector<Val> r; std::vector<u64> allocas; i32 retDst = -1; u64 varargs = 0; bool discard = false; };
struct Thread { std::vector<std::shared_ptr<Frame>> st; std::vector<u64> caught; std::map<u64, u64> tls; u32 flying = 0; };
struct ExcInfo { u64 ti = 0, dtor = 0; int refs = 0, handlers = 0; bool rethrown = false; };
struct ModelEval { Model m; Evaluator ev; explicit ModelEval() : ev(&m) {} };
struct InRec { std::string name; u32 w; E e; u32 arr; int kind; };   // kind 0 scalar, 1 array (lazy)
struct ObsRec { std::string name; Val v; };

struct State {
  std::vector<Thread> th; u32 cur = 0;
  std::vector<std::shared_ptr<Chunk>> mem; u64 nextId = 0; u32 nHuge = 0;
  std::vector<std::shared_ptr<Obj>> huge;
  std::vector<E> pc; std::shared_ptr<ModelEval> me;
  std::vector<std::pair<E, u64>> conc;  // expressions pinned by concretisation
  std::vector<InRec> in; std::vector<ObsRec> obs; std::map<std::string, u32> names;
  std::map<u64, ExcInfo> exc; i64 live = 0, liveB = 0; u64 steps = 0; u32 forks = 0; std::vector<std::string> notes; Race race;
};
typedef std::shared_ptr<State> SP;

// ------------------------------------------------------------------ program
struct Opnd { i32 slot = -1; Val c; };
enum XOp : u16 { X_INTRINSIC = 200 };
struct PhiMove { i32 dst; Opnd v; };
struct Ins { u16 op = 0; u16 pred = 0; u32 w = 0, w2 = 0; i32 dst = -1; std::vector<Opnd> ops; Instruction* I = nullptr;
  u64 imm = 0; std::vector<std::pair<Opnd, std::pair<u64, u32>>> gep; u32 t0 = 0, t1 = 0; std::vector<PhiMove> p0, p1;
  Type* ty = nullptr; FuncInfo* callee = nullptr; u32 iid = 0;
  std::vector<std::pair<u32, std::vector<PhiMove>>> succ; std::vector<std::pair<u64, u32>> cases; std::vector<u32> idx; };
struct FuncInfo { Function* F = nullptr; std::string name; u64 addr = 0; bool compiled = false, hasBody = false; std::vector<Ins> code; u32 nslots = 0;
  std::vector<i32> argSlot; int builtin = -1; FuncInfo* wrap = nullptr; FuncInfo* realOf = nullptr; bool stub = false; u64 calls = 0; bool isRepo = false; bool inWrap = false; std::string file; };

static LLVMContext Ctx; static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::map<std::string, FuncInfo*> FByName; static std::unordered_map<const Function*, FuncInfo*> FOf; static std::vector<FuncInfo*> FByIdx;
static std::unordered_map<const GlobalValue*, u64> GAddr;
static Z3Solver* SOLVER;
static std::deque<SP> WORK;
static std::map<u64, u32> TypeIds;

// configuration
static u64 MAX_STEPS = 30000000; static double MAX_TIME = 600; static u64 MAX_PATHS = 100000000; static int MAX_ERR = 3; static u64 ALLOC_LIMIT = 1 << 20; static u64 MAX_RSS_MB = 3500;
static std::map<std::string, i64> PARAM; static std::set<std::string> STUBS; static std::string REPO = "/repo/", OUT;
static bool VERBOSE = false;
// statistics
static u64 nPaths = 0, nInstr = 0, nForks = 0, nKilled = 0, nUnknown = 0, nAsserts = 0, nMemChecks = 0; static bool truncated = false; static std::string truncReason;
static std::set<std::string> reached; static std::chrono::steady_clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
struct ErrRec { std::string kind, msg, id, loc, stack, inputs, obs; };
static std::vector<ErrRec> errors; static std::set<std::string> errKeys; static std::vector<std::string> sampleInputs, sampleObs, sampleSig;
static int NSAMPLES = 12;

struct PathEnd { int how; };     // thrown to stop the current path: 0 done, 1 killed, 2 error
[[noreturn]] static void fatal(const std::string& s) { fprintf(stderr, "vsym: fatal: %s\n", s.c_str()); exit(3); }
static std::string js(const std::string& s) { std::string o = "\""; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; } else o += ch; } return o + "\""; }

// ------------------------------------------------------------------ state helpers
static Obj* findObj(State& S, u64 addr) {
  if (addr & HUGE_BASE) { u64 i = (addr >> 58) & 31; return i < S.huge.size() ? S.huge[i].get() : nullptr; }
  u64 id = addr >> OBJ_SHIFT; if (id >= S.nextId) return nullptr;
  auto& ch = S.mem[id >> 6]; return ch ? ch->o[id & 63].get() : nullptr;
}
static Obj* writable(State& S, Obj* o) {
  if (o->lazy) { u64 i = (o->base >> 58) & 31; auto& p = S.huge[i]; if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return p.get(); }
  u64 id = o->base >> OBJ_SHIFT; auto& ch = S.mem[id >> 6];
  if (ch.use_count() > 1) ch = std::make_shared<Chunk>(*ch);
  auto& p = ch->o[id & 63]; if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return p.get();
}
static Obj* newObj(State& S, u64 size, OKind k, const char* name, u8 fill = UNINIT) {
  u64 id = S.nextId++; if ((id >> 6) >= S.mem.size()) S.mem.push_back(std::make_shared<Chunk>());
  auto& ch = S.mem[id >> 6]; if (ch.use_count() > 1) ch = std::make_shared<Chunk>(*ch);
  auto o = std::make_shared<Obj>(); o->base = (id << OBJ_SHIFT) + OBJ_OFF; o->size = size; o->kind = k; o->fill = fill; if (name) o->name = name;
  o->pages.resize((size + 255) >> 8); ch->o[id & 63] = o; ch->live++; return o.get();
}
static void freeObj(State& S, Obj* o) {
  u64 id = o->base >> OBJ_SHIFT; auto& ch = S.mem[id >> 6]; if (ch.use_count() > 1) ch = std::make_shared<Chunk>(*ch);
  ch->o[id & 63].reset(); if (--ch->live == 0 && (id >> 6) + 1 < S.mem.size()) ch.reset();
}
static Page* wpage(Obj* o, u64 off) {
  auto& p = o->pages[off >> 8];
  if (!p) { p = std::make_shared<Page>(); memset(p->c, o->fill, 256); }
  else if (p.use_count() > 1) p = std::make_shared<Page>(*p);
  return p.get();
}
static inline E rdByteE(Obj* o, u64 off, u8& c) { Page* p = o->pages[off >> 8].get(); if (!p) { c = o->fill; return nullptr; } if (p->s && p->s[off & 255]) return p->s[off & 255]; c = p->c[off & 255]; return nullptr; }
static void wrByte(Obj* o, u64 off, E e) { Page* p = wpage(o, off); if (isC(e)) { p->c[off & 255] = (u8)e->c; if (p->s) p->s[off & 255] = nullptr; } else { if (!p->s) { p->s.reset(new E[256]); memset(p->s.get(), 0, 256 * sizeof(E)); } p->s[off & 255] = e; } }
static void wrConc(Obj* o, u64 off, const u8* d, u64 n) { while (n) { Page* p = wpage(o, off); u64 k = std::min<u64>(n, 256 - (off & 255)); memcpy(p->c + (off & 255), d, k); if (p->s) memset(p->s.get() + (off & 255), 0, k * sizeof(E)); off += k; d += k; n -= k; } }

// ------------------------------------------------------------------ solver glue
static std::vector<E> slice(State& S, E q) {
  std::vector<E> out; std::vector<u32> vars = varsOf(q); size_t n = S.pc.size(); std::vector<char> used(n, 0); bool ch = true;
  std::vector<char> have(VARS().size(), 0); for (u32 v : vars) have[v] = 1;
  while (ch) { ch = false;
    for (size_t i = 0; i < n; i++) if (!used[i]) { const auto& vs = varsOf(S.pc[i]); bool hit = false; for (u32 v : vs) if (have[v]) { hit = true; break; }
      if (hit) { used[i] = 1; ch = true; out.push_back(S.pc[i]); for (u32 v : vs) have[v] = 1; } } }
  out.push_back(q); return out;
}
// is `q` satisfiable together with the path condition? On 1, `me` is a model of path condition and q.
static int query(State& S, E q, std::shared_ptr<ModelEval>* me) {
  if (isC(q)) { if (q->c && me) *me = S.me; return q->c ? 1 : 0; }
  if ((u64)S.me->ev.ev(q)) { if (me) *me = S.me; SOLVER->st.modelHits++; return 1; }
  E nq = mkNot(q); for (size_t i = S.pc.size(); i-- > 0;) if (S.pc[i] == nq) return 0;
  std::vector<E> cs = slice(S, q); std::shared_ptr<Model> m; int r = SOLVER->check(cs, m);
  if (r < 0) { nUnknown++; return r; }
  if (r == 1 && me) { auto x = std::make_shared<ModelEval>(); x->m = S.me->m; for (auto& kv : m->v) x->m.v[kv.first] = kv.second; for (auto& kv : m->arr) for (auto& b : kv.second) x->m.arr[kv.first][b.first] = b.second; *me = x; }
  return r;
}
static void addPC(State& S, E c) {
  if (isC(c)) return;
  if (c->k == E_AND && c->w == 1) { addPC(S, c->a); addPC(S, c->b); return; }
  if (c->k == E_XOR && isC(c->b, 1) && c->a->k == E_OR) { addPC(S, mkNot(c->a->a)); addPC(S, mkNot(c->a->b)); return; }
  for (size_t i = S.pc.size(), k = 0; i-- > 0 && k < 64; k++) if (S.pc[i] == c) return;
  S.pc.push_back(c);
}
static std::map<std::string, u64> FORKAT; static std::string forkLoc(State& S);
static void pushFork(State& S, E c, std::shared_ptr<ModelEval> me) {
  if (VERBOSE) FORKAT[forkLoc(S)]++;
  auto n = std::make_shared<State>(S); addPC(*n, c); n->me = me; n->forks++; nForks++; WORK.push_back(n);
}
// decide a condition, forking when both sides are feasible
static bool decide(State& S, E c) {
  if (isC(c)) return c->c;
  bool v = (u64)S.me->ev.ev(c); E mine = v ? c : mkNot(c), other = v ? mkNot(c) : c;
  for (size_t i = S.pc.size(); i-- > 0;) if (S.pc[i] == mine) return v;
  std::shared_ptr<ModelEval> m; int r = query(S, other, &m);
  if (r == 1) { pushFork(S, other, m); addPC(S, mine); }
  else if (r < 0) { truncated = true; truncReason = "solver unknown"; addPC(S, mine); }
  return v;
}
static bool mustBe(State& S, E c) { if (isC(c)) return c->c; if (!(u64)S.me->ev.ev(c)) return false; return query(S, mkNot(c), nullptr) == 0; }
static bool mayBe(State& S, E c) { if (isC(c)) return c->c; return query(S, c, nullptr) != 0; }
static u64 concretize(State& S, const Val& v, u32 w) {
  if (!v.e) return v.c;
  for (auto& p : S.conc) if (p.first == v.e) return p.second;
  u64 x = (u64)S.me->ev.ev(v.e); E eq = mkEq(v.e, mkC(x, w));
  if (!isC(eq)) { std::shared_ptr<ModelEval> m; int r = query(S, mkNot(eq), &m);
    if (r == 1) pushFork(S, mkNot(eq), m); else if (r < 0) { truncated = true; truncReason = "solver unknown"; }
    addPC(S, eq); }
  S.conc.push_back({v.e, x}); return x;
}

// ------------------------------------------------------------------ reporting
static const Ins* curIns(State& S) { auto& st = S.th[S.cur].st; if (st.empty()) return nullptr; Frame& f = *st.back(); return f.pc < f.f->code.size() ? &f.f->code[f.pc] : nullptr; }
static std::string locOf(const Instruction* I) { if (!I) return "?"; if (const DebugLoc& d = I->getDebugLoc()) { auto* sc = d->getScope(); std::string f = sc ? sc->getFilename().str() : ""; return f + ":" + std::to_string(d.getLine()); } return "?"; }
static std::string forkLoc(State& S) { auto& st = S.th[S.cur].st; std::string o; for (size_t i = st.size(), k = 0; i-- > 0 && k < 2; k++) { Frame& f = *st[i]; o += demangle(f.f->name).substr(0, 70) + "@" + (f.pc < f.f->code.size() ? locOf(f.f->code[f.pc].I) : "?") + " < "; } return o; }
static std::string stackOf(State& S) { std::string o; auto& st = S.th[S.cur].st; for (size_t i = st.size(); i-- > 0;) { Frame& f = *st[i]; std::string n = demangle(f.f->name); if (n.size() > 120) n.resize(120); o += n + " @" + (f.pc < f.f->code.size() ? locOf(f.f->code[f.pc].I) : "?"); if (i) o += " <- "; if (o.size() > 3000) break; } return o; }
static std::string inputsJson(State& S, ModelEval* me) {
  std::string o = "["; bool first = true;
  for (auto& r : S.in) { if (!first) o += ","; first = false;
    if (r.kind == 0) o += "[" + js(r.name) + "," + std::to_string(r.w) + "," + js(std::to_string((u64)me->ev.ev(r.e))) + "]";
    else { o += "[" + js(r.name) + ",0,["; bool f2 = true; auto it = me->m.arr.find(r.arr); if (it != me->m.arr.end()) for (auto& kv : it->second) { if (!f2) o += ","; f2 = false; o += "[" + js(std::to_string(kv.first)) + "," + std::to_string(kv.second) + "]"; } o += "]]"; } }
  return o + "]";
}
static std::string obsJson(State& S, ModelEval* me) { std::string o = "["; bool f = true; for (auto& r : S.obs) { if (!f) o += ","; f = false; o += "[" + js(r.name) + "," + js(std::to_string(r.v.e ? (u64)me->ev.ev(r.v.e) : r.v.c)) + "]"; } return o + "]"; }
static void report(State& S, const std::string& kind, const std::string& id, const std::string& msg, ModelEval* me = nullptr) {
  if (!me) me = S.me.get();
  std::string loc = locOf(curIns(S) ? curIns(S)->I : nullptr); std::string key = kind + "|" + id + "|" + (kind == "assert" || kind == "step-limit" ? "" : loc);
  if (VERBOSE || errors.size() < 3) fprintf(stderr, "vsym: %s %s: %s at %s\n   %s\n   in=%s\n", kind.c_str(), id.c_str(), msg.c_str(), loc.c_str(), stackOf(S).c_str(), inputsJson(S, me).c_str());
  if (errKeys.count(key) && errors.size() >= 1) { int n = 0; for (auto& e : errors) if (e.kind == kind && e.id == id) n++; if (n >= MAX_ERR) return; }
  errKeys.insert(key); if (errors.size() > 40) return;
  std::string notes; for (auto& n : S.notes) notes += n + "\n";
  errors.push_back({kind, msg, id, loc, stackOf(S), inputsJson(S, me), notes});
}
[[noreturn]] static void err(State& S, const std::string& kind, const std::string& id, const std::string& msg, ModelEval* me = nullptr) { report(S, kind, id, msg, me); throw PathEnd{2}; }

// ------------------------------------------------------------------ lazy (symbolic-size) objects
static u32 LW = 64;
static bool synDiff(E a, E b, i64& d) { E x = mkSub(a, b); if (isC(x)) { d = (i64)x->c; return true; } return false; }
static E lazyByte(State& S, LBase* base, LNode* n, E off, int depth);
static E baseByte(LBase* b, E off) { return b->isArr ? mkSelect(b->arr, off) : mkC(b->fill, 8); }
static E lazyByte(State& S, LBase* base, LNode* n, E off, int depth) {
  if (depth > 400) fatal("lazy read too deep");
  for (; n; n = n->next.get()) {
    if (n->kind == 0) { // bytes
      i64 d; u64 k = n->bytes.size();
      if (synDiff(off, n->off, d)) { if (d >= 0 && (u64)d < k) return n->bytes[d]; continue; }
      E rel = mkSub(off, n->off), in = mkUlt(rel, mkC(k, 64));
      if (!mayBe(S, in)) continue;
      E v = n->bytes[k - 1]; for (u64 i = k - 1; i-- > 0;) v = mkIte(mkEq(rel, mkC(i, 64)), n->bytes[i], v);
      if (mustBe(S, in)) return v;
      return mkIte(in, v, lazyByte(S, base, n->next.get(), off, depth + 1));
    }
    E rel = mkSub(off, n->off), in = mkUlt(rel, n->len);
    if (!mayBe(S, in)) continue;
    E v = n->kind == 2 ? mkC(n->fill, 8) : lazyByte(S, n->srcBase, n->src.get(), mkAdd(n->srcOff, rel), depth + 1);
    if (mustBe(S, in)) return v;
    return mkIte(in, v, lazyByte(S, base, n->next.get(), off, depth + 1));
  }
  return baseByte(base, off);
}
static E lazyRead(State& S, LBase* base, LNode* n, E off, u32 nb) {
  for (; n; n = n->next.get()) {
    if (n->kind == 0) { i64 d; i64 k = n->bytes.size();
      if (synDiff(off, n->off, d)) { if (d >= k || d + (i64)nb <= 0) continue; if (d >= 0 && d + (i64)nb <= k) { E r = n->bytes[d]; for (u32 i = 1; i < nb; i++) r = mkConcat(n->bytes[d + i], r); return r; } break; }
      // disjoint?
      E dis = mkOr(mkSle(mkAdd(off, mkC(nb, 64)), n->off), mkSle(mkAdd(n->off, mkC(k, 64)), off));
      if (mustBe(S, dis)) continue;
      if ((u64)k == nb && mustBe(S, mkEq(off, n->off))) { E r = n->bytes[0]; for (u32 i = 1; i < nb; i++) r = mkConcat(n->bytes[i], r); return r; }
      break; }
    E dis = mkOr(mkOr(mkSle(mkAdd(off, mkC(nb, 64)), n->off), mkSle(mkAdd(n->off, n->len), off)), mkEq(n->len, mkC(0, 64)));
    if (mustBe(S, dis)) continue;
    E cov = mkAnd(mkSle(n->off, off), mkSle(mkAdd(off, mkC(nb, 64)), mkAdd(n->off, n->len)));
    if (mustBe(S, cov)) { if (n->kind == 2) { E r = mkC(n->fill, 8); for (u32 i = 1; i < nb; i++) r = mkConcat(mkC(n->fill, 8), r); return r; }
      return lazyRead(S, n->srcBase, n->src.get(), mkAdd(n->srcOff, mkSub(off, n->off)), nb); }
    break;
  }
  E r = nullptr; for (u32 i = 0; i < nb; i++) { E b = lazyByte(S, base, n, mkAdd(off, mkC(i, 64)), 0); r = r ? mkConcat(b, r) : b; }
  return r;
}

// ------------------------------------------------------------------ memory access
static std::string ptrDesc(State& S, u64 a) { Obj* o = findObj(S, a); char b[200]; if (o) snprintf(b, 200, "object '%s' size %llu offset %lld", o->name.c_str(), (unsigned long long)o->size, (long long)(a - o->base)); else snprintf(b, 200, "no object at %#llx%s", (unsigned long long)a, a < 4096 ? " (null)" : " (freed or wild)"); return b; }
static bool okRange(Obj* o, u64 a, u64 n) { u64 off = a - o->base; return off <= o->size && n <= o->size - off; }
// Resolves an access of n bytes; returns the object with a guaranteed in-bounds address.
static Obj* resolve(State& S, Val& a, u64 n, bool wr, const char* what) {
  nMemChecks++;
  if (!a.e) {
    Obj* o = findObj(S, a.c);
    if (!o) err(S, a.c < 65536 ? "null-deref" : "invalid-access", what, std::string(what) + " of " + std::to_string(n) + " bytes: " + ptrDesc(S, a.c));
    if (!o->sizeE) { if (!okRange(o, a.c, n)) err(S, "out-of-bounds", what, std::string(what) + " of " + std::to_string(n) + " bytes: " + ptrDesc(S, a.c)); }
    else { E off = mkC(a.c - o->base, 64); E inb = mkAnd(mkSle(mkC(0, 64), off), mkSle(mkAdd(off, mkC(n, 64)), o->sizeE));
      if (!isC(inb, 1)) { std::shared_ptr<ModelEval> m; int r = query(S, mkNot(inb), &m); if (r == 1) { err(S, "out-of-bounds", what, std::string(what) + " of " + std::to_string(n) + " bytes: " + ptrDesc(S, a.c), m.get()); } } }
    if (wr && o->ro) err(S, "write-to-const", what, ptrDesc(S, a.c));
    return o;
  }
  u64 v = (u64)S.me->ev.ev(a.e); Obj* o = findObj(S, v);
  if (!o) err(S, v < 65536 ? "null-deref" : "invalid-access", what, std::string(what) + ": symbolic pointer, " + ptrDesc(S, v));
  E off = mkSub(a.e, mkC(o->base, 64)); E inb;
  if (o->sizeE) inb = mkAnd(mkSle(mkC(0, 64), off), mkSle(mkAdd(off, mkC(n, 64)), o->sizeE));
  else { if (n > o->size) err(S, "out-of-bounds", what, std::string(what) + ": " + ptrDesc(S, v)); inb = mkUle(off, mkC(o->size - n, 64)); }
  if (!(u64)S.me->ev.ev(inb)) err(S, "out-of-bounds", what, std::string(what) + " of " + std::to_string(n) + " bytes: " + ptrDesc(S, v));
  std::shared_ptr<ModelEval> m; int r = query(S, mkNot(inb), &m);
  if (r == 1) { u64 v2 = (u64)m->ev.ev(a.e); Obj* o2 = findObj(S, v2);
    if (o2 && o2 != o && okRange(o2, v2, n)) { pushFork(S, mkNot(inb), m); addPC(S, inb); }
    else { err(S, "out-of-bounds", what, std::string(what) + " of " + std::to_string(n) + " bytes: " + ptrDesc(S, v2), m.get()); } }
  else if (r < 0) { truncated = true; truncReason = "solver unknown"; addPC(S, inb); }
  if (wr && o->ro) err(S, "write-to-const", what, ptrDesc(S, v));
  return o;
}
static Val readDense(Obj* o, u64 off, u32 nb) {
  bool sym = false; u64 c = 0; u8 bc; Page* p0 = o->pages[off >> 8].get();
  if (nb <= 8 && (off >> 8) == ((off + nb - 1) >> 8)) {
    if (!p0) { for (u32 i = 0; i < nb; i++) c |= (u64)o->fill << (8 * i); return Val(c); }
    if (!p0->s) { memcpy(&c, p0->c + (off & 255), nb); return Val(c); }
  }
  std::vector<E> bs(nb); for (u32 i = 0; i < nb; i++) { bs[i] = rdByteE(o, off + i, bc); if (bs[i]) sym = true; else { if (i < 8) c |= (u64)bc << (8 * i); bs[i] = mkC(bc, 8); } }
  if (!sym && nb <= 8) return Val(c);
  E r = bs[0]; for (u32 i = 1; i < nb; i++) r = mkConcat(bs[i], r);
  return ofE(r);
}
static void writeDense(Obj* o, u64 off, const Val& v, u32 nb) {
  if (!v.e && nb <= 8) { wrConc(o, off, (const u8*)&v.c, nb); return; }
  E e = toE(v, nb * 8); for (u32 i = 0; i < nb; i++) wrByte(o, off + i, mkExtractMem(e, 8 * i, 8));
}
static Val load(State& S, Val a, u32 nb, u32 w) {
  Obj* o = resolve(S, a, nb, false, "read"); Val r;
  if (o->lazy) r = ofE(lazyRead(S, o->lbase, o->head.get(), mkSub(toE(a, 64), mkC(o->base, 64)), nb));
  else if (!a.e) r = readDense(o, a.c - o->base, nb);
  else if (o->size <= 640) {
    E off = mkSub(a.e, mkC(o->base, 64)), acc = nullptr; u64 step = 1; if (nb > 1 && mustBe(S, mkEq(mkAnd(off, mkC(nb - 1, 64)), mkC(0, 64)))) step = nb;
    for (u64 i = 0; i + nb <= o->size; i += step) { E v = toE(readDense(o, i, nb), nb * 8); acc = acc ? mkIte(mkEq(off, mkC(i, 64)), v, acc) : v; }
    r = ofE(acc);
  } else { u64 ca = concretize(S, a, 64); r = readDense(o, ca - o->base, nb); }
  if (r.e) r = ofE(mkNorm(r.e));
  if (w < nb * 8) { if (r.e) r = ofE(mkExtract(r.e, 0, w)); else r.c &= mask(w); }
  return r;
}
static void store(State& S, Val a, const Val& v, u32 nb, u32 w) {
  Obj* o = resolve(S, a, nb, true, "write"); Val x = v; if (x.e && w < nb * 8) x = ofE(mkZExt(x.e, nb * 8));
  if (o->lazy) { o = writable(S, o); auto n = std::make_shared<LNode>(); n->kind = 0; n->off = mkSub(toE(a, 64), mkC(o->base, 64)); E e = toE(x, nb * 8); for (u32 i = 0; i < nb; i++) n->bytes.push_back(mkExtractMem(e, 8 * i, 8)); 
    n->next = o->head; 
    // drop an older store to exactly the same place directly below
    if (n->next && n->next->kind == 0 && n->next->off == n->off && n->next->bytes.size() == nb) n->next = n->next->next;
    o->head = n; return; }
  if (a.e && o->size <= 160) { o = writable(S, o); E off = mkSub(a.e, mkC(o->base, 64)); E e = toE(x, nb * 8);
    for (u64 i = 0; i < o->size; i++) { u8 c; E old = rdByteE(o, i, c); if (!old) old = mkC(c, 8); E nv = old; for (u32 k = 0; k < nb; k++) if (i >= k && i - k + nb <= o->size) nv = mkIte(mkEq(off, mkC(i - k, 64)), mkExtract(e, 8 * k, 8), nv); if (nv != old) wrByte(o, i, nv); } return; }
  u64 ca = concretize(S, a, 64); o = writable(S, findObj(S, ca)); writeDense(o, ca - o->base, x, nb);
}
// resolve a range of possibly symbolic length; concrete length for dense objects
static Obj* resolveRange(State& S, Val& a, Val& len, bool wr, const char* what) {
  u64 v = a.e ? (u64)S.me->ev.ev(a.e) : a.c; Obj* o = findObj(S, v);
  if (o && o->lazy && (len.e || a.e)) {
    nMemChecks++; E off = mkSub(toE(a, 64), mkC(o->base, 64)), n = toE(len, 64);
    E inb = mkAnd(mkAnd(mkSle(mkC(0, 64), n), mkSle(mkC(0, 64), off)), mkAnd(mkSle(off, o->sizeE), mkSle(n, mkSub(o->sizeE, off))));
    inb = mkOr(inb, mkEq(n, mkC(0, 64)));
    std::shared_ptr<ModelEval> m; int r = query(S, mkNot(inb), &m);
    if (r == 1) { err(S, "out-of-bounds", what, std::string(what) + " of symbolic length " + std::to_string((u64)m->ev.ev(n)) + ": " + ptrDesc(S, a.e ? (u64)m->ev.ev(a.e) : a.c), m.get()); }
    if (r < 0) { truncated = true; truncReason = "solver unknown"; addPC(S, inb); }
    return o;
  }
  u64 n = concretize(S, len, 64); len = Val(n); if (n == 0) return nullptr;
  return resolve(S, a, n, wr, what);
}
static void memCopy(State& S, Val d, Val s, Val n, bool overlapOk, const char* what) {
  if (!n.e && n.c == 0) return;
  Obj* od = resolveRange(S, d, n, true, what); Obj* os = resolveRange(S, s, n, false, what);
  if (!n.e && n.c == 0) return;
  if (!overlapOk && od == os) { E nd = toE(d, 64), ns = toE(s, 64), nn = toE(n, 64);
    E ov = mkAnd(mkNot(mkEq(nd, ns)), mkAnd(mkSlt(mkSub(nd, mkC(od->base, 64)), mkAdd(mkSub(ns, mkC(od->base, 64)), nn)), mkSlt(mkSub(ns, mkC(od->base, 64)), mkAdd(mkSub(nd, mkC(od->base, 64)), nn))));
    std::shared_ptr<ModelEval> m; if (query(S, ov, &m) == 1) err(S, "memcpy-overlap", what, "memcpy on overlapping regions", m.get()); }
  if (od->lazy || os->lazy) {
    auto node = std::make_shared<LNode>();
    if (od->lazy) {
      node->off = mkSub(toE(d, 64), mkC(od->base, 64)); node->len = toE(n, 64);
      if (os->lazy) { node->kind = 1; node->src = os->head; node->srcBase = os->lbase; node->srcOff = mkSub(toE(s, 64), mkC(os->base, 64)); }
      else { u64 k = concretize(S, n, 64), ca = concretize(S, s, 64); if (!k) return; node->kind = 0; for (u64 i = 0; i < k; i++) { u8 c; E b = rdByteE(os, ca - os->base + i, c); node->bytes.push_back(b ? b : mkC(c, 8)); } }
      od = writable(S, findObj(S, od->base)); node->next = od->head; od->head = node; return;
    }
    u64 k = concretize(S, n, 64), cd = concretize(S, d, 64); std::vector<E> bs;
    for (u64 i = 0; i < k; i++) bs.push_back(lazyByte(S, os->lbase, os->head.get(), mkAdd(mkSub(toE(s, 64), mkC(os->base, 64)), mkC(i, 64)), 0));
    od = writable(S, findObj(S, cd)); for (u64 i = 0; i < k; i++) wrByte(od, cd - od->base + i, bs[i]); return;
  }
  u64 k = n.c, cd = concretize(S, d, 64), cs = concretize(S, s, 64);
  od = writable(S, findObj(S, cd)); os = findObj(S, cs); u64 fo = cs - os->base, to = cd - od->base; bool anyS = false;
  for (u64 p = fo >> 8; p <= (fo + k - 1) >> 8; p++) if (os->pages[p] && os->pages[p]->s) anyS = true;
  if (!anyS) { u8 buf[4096]; if (k <= 4096 || od != os) { u64 done = 0; while (done < k) { u64 ch = std::min<u64>(4096, k - done); for (u64 i = 0; i < ch;) { u64 o2 = fo + done + i; Page* p = os->pages[o2 >> 8].get(); u64 q = std::min<u64>(ch - i, 256 - (o2 & 255)); if (p) memcpy(buf + i, p->c + (o2 & 255), q); else memset(buf + i, os->fill, q); i += q; } wrConc(od, to + done, buf, ch); done += ch; } return; } }
  std::vector<E> tmp(k); for (u64 i = 0; i < k; i++) { u8 c; E b = rdByteE(os, fo + i, c); tmp[i] = b ? b : mkC(c, 8); }
  for (u64 i = 0; i < k; i++) wrByte(od, to + i, tmp[i]);
}
static void memSet(State& S, Val d, Val c, Val n) {
  if (!n.e && n.c == 0) return;
  Obj* o = resolveRange(S, d, n, true, "memset"); if (!n.e && n.c == 0) return;
  if (o->lazy && (n.e || n.c > 16)) { u64 f = concretize(S, c, 8); auto nn = std::make_shared<LNode>(); nn->kind = 2; nn->off = mkSub(toE(d, 64), mkC(o->base, 64)); nn->len = toE(n, 64); nn->fill = (u8)f; o = writable(S, findObj(S, o->base)); nn->next = o->head; o->head = nn; return; }
  if (o->lazy) { for (u64 i = 0; i < n.c; i++) store(S, d.e ? ofE(mkAdd(d.e, mkC(i, 64))) : Val(d.c + i), c, 1, 8); return; }
  u64 cd = concretize(S, d, 64); o = writable(S, findObj(S, cd)); u64 off = cd - o->base;
  if (c.e) { E b = c.e->w > 8 ? mkExtract(c.e, 0, 8) : c.e; for (u64 i = 0; i < n.c; i++) wrByte(o, off + i, b); return; }
  u64 k = n.c; while (k) { Page* p = wpage(o, off); u64 q = std::min<u64>(k, 256 - (off & 255)); memset(p->c + (off & 255), (u8)c.c, q); if (p->s) memset(p->s.get() + (off & 255), 0, q * sizeof(E)); off += q; k -= q; }
}
static std::string cstr(State& S, const Val& p) { std::string s; u64 a = concretize(S, p, 64); Obj* o = findObj(S, a); if (!o || o->lazy) return "?"; for (u64 i = a - o->base; i < o->size && s.size() < 400; i++) { u8 c; E e = rdByteE(o, i, c); if (e) c = (u8)(u64)S.me->ev.ev(e); if (!c) break; s += c; } return s; }

// ------------------------------------------------------------------ constants & globals
static FuncInfo* infoOf(Function* F) { auto it = FOf.find(F); if (it != FOf.end()) return it->second; fatal("unknown function"); }
static u32 bitsOf(Type* t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isVoidTy()) return 0; return 0; }
static u32 bytesOf(Type* t) { return (u32)DL->getTypeStoreSize(t).getFixedValue(); }
static Val evalConst(const Constant* C) {
  if (auto* ci = dyn_cast<ConstantInt>(C)) { if (ci->getBitWidth() > 64) { Val v; APInt a = ci->getValue(); E lo = mkC(a.extractBitsAsZExtValue(64, 0), 64), hi = mkC(a.extractBitsAsZExtValue(ci->getBitWidth() - 64, 64), ci->getBitWidth() - 64); v.e = mkConcat(hi, lo); return v; } return Val(ci->getZExtValue()); }
  if (auto* cf = dyn_cast<ConstantFP>(C)) return Val(cf->getValueAPF().bitcastToAPInt().getZExtValue());
  if (isa<ConstantPointerNull>(C)) return Val(0);
  if (auto* gv = dyn_cast<GlobalValue>(C)) { auto it = GAddr.find(gv); if (it == GAddr.end()) { if (auto* ga = dyn_cast<GlobalAlias>(C)) return evalConst(ga->getAliasee()); fatal("no address for " + gv->getName().str()); } return Val(it->second); }
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) {
    Type* t = C->getType(); if (t->isStructTy() || t->isArrayTy()) { Agg* a = new Agg; u64 n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements(); for (u64 i = 0; i < n; i++) a->v.push_back(evalConst(C->getAggregateElement((unsigned)i))); Val v; v.a = a; return v; }
    return Val(0); }
  if (isa<ConstantAggregate>(C) || isa<ConstantDataSequential>(C)) { Type* t = C->getType(); u64 n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements(); Agg* a = new Agg; for (u64 i = 0; i < n; i++) a->v.push_back(evalConst(C->getAggregateElement((unsigned)i))); Val v; v.a = a; return v; }
  if (auto* ce = dyn_cast<ConstantExpr>(C)) {
    u32 w = bitsOf(ce->getType());
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) fatal("const gep"); return Val(evalConst(ce->getOperand(0)).c + off.getZExtValue()); }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: return Val(evalConst(ce->getOperand(0)).c & mask(w));
      case Instruction::Sub: return Val((evalConst(ce->getOperand(0)).c - evalConst(ce->getOperand(1)).c) & mask(w));
      case Instruction::Add: return Val((evalConst(ce->getOperand(0)).c + evalConst(ce->getOperand(1)).c) & mask(w));
      default: fatal("constant expr"); }
  }
  fatal("constant kind");
}
static void writeConst(Obj* o, u64 off, const Constant* C) {
  Type* t = C->getType();
  if (isa<ConstantAggregateZero>(C)) { u64 n = DL->getTypeAllocSize(t); std::vector<u8> z(n, 0); wrConc(o, off, z.data(), n); return; }
  if (isa<UndefValue>(C)) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { StringRef r = cd->getRawDataValues(); wrConc(o, off, (const u8*)r.data(), r.size()); return; }
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) writeConst(o, off + sl->getElementOffset(i), C->getAggregateElement(i)); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) writeConst(o, off + i * es, C->getAggregateElement((unsigned)i)); return; }
  Val v = evalConst(C); writeDense(o, off, v, bytesOf(t));
}
static std::unordered_map<u64, GlobalVariable*> TlsOf;
static void setupGlobals(State& S) {
  u64 idx = 1; for (Function& F : *M) { auto* fi = new FuncInfo; fi->F = &F; fi->name = F.getName().str(); fi->hasBody = !F.isDeclaration(); fi->addr = FUNC_BASE + idx * 64; GAddr[&F] = fi->addr; FOf[&F] = fi; FByName[fi->name] = fi; while (FByIdx.size() <= idx) FByIdx.push_back(nullptr); FByIdx[idx] = fi; idx++;
    if (auto* sp = F.getSubprogram()) { std::string f = sp->getFilename().str(); if (!f.empty() && f[0] != '/' && sp->getFile()) f = sp->getFile()->getDirectory().str() + "/" + f; fi->file = f; fi->isRepo = f.compare(0, REPO.size(), REPO) == 0; }
    fi->stub = STUBS.count(fi->name) > 0; fi->inWrap = fi->name.compare(0, 7, "__wrap_") == 0; }
  for (auto& kv : FByName) { auto it = FByName.find("__wrap_" + kv.first); if (it != FByName.end() && it->second->hasBody) kv.second->wrap = it->second; if (kv.first.compare(0, 7, "__real_") == 0) { auto r = FByName.find(kv.first.substr(7)); if (r != FByName.end() && r->second->hasBody) kv.second->realOf = r->second; } }
  for (GlobalVariable& G : M->globals()) { u64 sz = DL->getTypeAllocSize(G.getValueType()); if (G.isDeclaration()) sz = std::max<u64>(sz, 64); Obj* o = newObj(S, sz, O_GLOBAL, G.getName().str().c_str(), 0); GAddr[&G] = o->base; if (G.isThreadLocal()) TlsOf[o->base] = &G; }
  for (GlobalAlias& A : M->aliases()) { Val v = evalConst(A.getAliasee()); GAddr[&A] = v.c; if (auto* F = dyn_cast<Function>(A.getAliaseeObject())) { FByName[A.getName().str()] = infoOf(F); } }
  for (GlobalVariable& G : M->globals()) if (G.isDeclaration() && G.getName().size() > 4 && G.getName().size() < 28 && G.getName().substr(0, 4) == "_ZTI") { Obj* o = findObj(S, GAddr[&G]); std::string nm = G.getName().str().substr(4); wrConc(o, 32, (const u8*)nm.c_str(), nm.size() + 1); u64 at = o->base + 32; wrConc(o, 8, (const u8*)&at, 8); }   // type_info objects of the library: their names
  for (GlobalVariable& G : M->globals()) { if (G.hasInitializer()) { Obj* o = findObj(S, GAddr[&G]); writeConst(o, 0, G.getInitializer()); o->ro = G.isConstant(); } }
}

// ------------------------------------------------------------------ precompilation
static Opnd opnd(FuncInfo* f, std::unordered_map<const Value*, i32>& sl, const Value* v) {
  Opnd o; if (auto* c = dyn_cast<Constant>(v)) { o.c = evalConst(c); return o; }
  if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return o;
  auto it = sl.find(v); if (it == sl.end()) fatal("operand without slot in " + f->name); o.slot = it->second; return o;
}
static u32 insCounter = 0; static std::vector<char> insHit; static u64 repoInsTotal = 0;
static void compile(FuncInfo* f) {
  if (f->compiled) return; f->compiled = true; std::unordered_map<const Value*, i32> sl; Function* F = f->F;
  for (auto& a : F->args()) { f->argSlot.push_back(f->nslots); sl[&a] = f->nslots++; }
  std::unordered_map<const BasicBlock*, u32> start; u32 pc = 0;
  for (auto& B : *F) { start[&B] = pc; for (auto& I : B) { if (!I.getType()->isVoidTy()) sl[&I] = f->nslots++; if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue; pc++; } }
  auto phis = [&](BasicBlock* from, BasicBlock* to) { std::vector<PhiMove> v; for (auto& P : to->phis()) v.push_back({sl[&P], opnd(f, sl, P.getIncomingValueForBlock(from))}); return v; };
  for (auto& B : *F) for (auto& I : B) {
    if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
    Ins n; n.I = &I; n.op = I.getOpcode(); n.iid = insCounter++; n.ty = I.getType(); n.w = bitsOf(I.getType()); if (!I.getType()->isVoidTy()) n.dst = sl[&I];
    if (auto* br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) n.ops.push_back(opnd(f, sl, br->getCondition())); n.t0 = start[br->getSuccessor(0)]; n.p0 = phis(&B, br->getSuccessor(0)); if (br->isConditional()) { n.t1 = start[br->getSuccessor(1)]; n.p1 = phis(&B, br->getSuccessor(1)); } }
    else if (auto* sw = dyn_cast<SwitchInst>(&I)) { n.ops.push_back(opnd(f, sl, sw->getCondition())); n.w2 = bitsOf(sw->getCondition()->getType()); std::map<BasicBlock*, u32> si; auto add = [&](BasicBlock* t) { auto it = si.find(t); if (it != si.end()) return it->second; u32 k = n.succ.size(); n.succ.push_back({start[t], phis(&B, t)}); si[t] = k; return k; }; add(sw->getDefaultDest()); for (auto& c : sw->cases()) n.cases.push_back({c.getCaseValue()->getZExtValue(), add(c.getCaseSuccessor())}); }
    else if (auto* cb = dyn_cast<CallBase>(&I)) {
      for (auto& a : cb->args()) n.ops.push_back(opnd(f, sl, a.get()));
      Function* cf = cb->getCalledFunction(); if (!cf) { if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand())) cf = dyn_cast<Function>(ga->getAliaseeObject()); }
      if (cf) n.callee = infoOf(cf); else { if (cb->isInlineAsm()) n.imm = 77; n.gep.push_back({opnd(f, sl, cb->getCalledOperand()), {0, 0}}); }
      if (cf && cf->isIntrinsic()) n.pred = cf->getIntrinsicID();
      if (auto* iv = dyn_cast<InvokeInst>(&I)) { n.t0 = start[iv->getNormalDest()]; n.p0 = phis(&B, iv->getNormalDest()); n.t1 = start[iv->getUnwindDest()]; n.p1 = phis(&B, iv->getUnwindDest()); }
    }
    else if (auto* al = dyn_cast<AllocaInst>(&I)) { n.imm = DL->getTypeAllocSize(al->getAllocatedType()); n.ops.push_back(opnd(f, sl, al->getArraySize())); }
    else if (auto* ge = dyn_cast<GetElementPtrInst>(&I)) {
      n.ops.push_back(opnd(f, sl, ge->getPointerOperand())); u64 off = 0;
      for (auto gi = gep_type_begin(ge), e = gep_type_end(ge); gi != e; ++gi) { Value* ix = gi.getOperand();
        if (StructType* st = gi.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
        else { u64 es = DL->getTypeAllocSize(gi.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(ix)) off += (u64)ci->getSExtValue() * es; else n.gep.push_back({opnd(f, sl, ix), {es, bitsOf(ix->getType())}}); } }
      n.imm = off; }
    else if (auto* ic = dyn_cast<CmpInst>(&I)) { n.pred = ic->getPredicate(); n.w2 = bitsOf(ic->getOperand(0)->getType()); for (auto& o : I.operands()) n.ops.push_back(opnd(f, sl, o)); }
    else if (auto* ex = dyn_cast<ExtractValueInst>(&I)) { n.ops.push_back(opnd(f, sl, ex->getAggregateOperand())); n.idx.assign(ex->idx_begin(), ex->idx_end()); }
    else if (auto* iv = dyn_cast<InsertValueInst>(&I)) { n.ops.push_back(opnd(f, sl, iv->getAggregateOperand())); n.ops.push_back(opnd(f, sl, iv->getInsertedValueOperand())); n.idx.assign(iv->idx_begin(), iv->idx_end()); }
    else if (isa<LandingPadInst>(I)) {}
    else { for (auto& o : I.operands()) n.ops.push_back(opnd(f, sl, o)); if (I.getNumOperands()) n.w2 = bitsOf(I.getOperand(0)->getType());
      if (auto* st = dyn_cast<StoreInst>(&I)) { n.w2 = bitsOf(st->getValueOperand()->getType()); n.imm = bytesOf(st->getValueOperand()->getType()); n.ty = st->getValueOperand()->getType(); }
      if (isa<LoadInst>(I)) n.imm = bytesOf(I.getType());
      if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) { n.pred = rm->getOperation(); n.imm = bytesOf(I.getType()); }
      if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) { n.w2 = bitsOf(cx->getCompareOperand()->getType()); n.imm = bytesOf(cx->getCompareOperand()->getType()); } }
    f->code.push_back(std::move(n));
  }
  insHit.resize(insCounter, 0);
}

// ------------------------------------------------------------------ execution
static Frame& topF(State& S) { auto& p = S.th[S.cur].st.back(); if (p.use_count() > 1) p = std::make_shared<Frame>(*p); return *p; }
static inline const Val& get(Frame& F, const Opnd& o) { return o.slot >= 0 ? F.r[o.slot] : o.c; }
static void moves(Frame& F, const std::vector<PhiMove>& p) {
  if (p.empty()) return; if (p.size() == 1) { F.r[p[0].dst] = get(F, p[0].v); return; }
  Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (p.size() > 64) { big.resize(p.size()); t = big.data(); }
  for (size_t i = 0; i < p.size(); i++) t[i] = get(F, p[i].v); for (size_t i = 0; i < p.size(); i++) F.r[p[i].dst] = t[i];
}
static void pushCall(State& S, FuncInfo* f, const std::vector<Val>& args, i32 retDst, bool discard = false) {
  compile(f); f->calls++; auto fr = std::make_shared<Frame>(); fr->f = f; fr->r.resize(f->nslots); fr->retDst = retDst; fr->discard = discard;
  for (size_t i = 0; i < f->argSlot.size(); i++) if (i < args.size()) fr->r[f->argSlot[i]] = args[i];
  if (S.th[S.cur].st.size() > 400) err(S, "stack-overflow", f->name, "call depth exceeds 400");
  if (f->F->isVarArg()) { u64 n = args.size() > f->argSlot.size() ? args.size() - f->argSlot.size() : 0; Obj* o = newObj(S, n * 8 + 128, O_STACK, "varargs", 0x5a); for (u64 i = 0; i < n; i++) writeDense(o, i * 8, args[f->argSlot.size() + i], 8); fr->varargs = o->base; fr->allocas.push_back(o->base); }
  // byval arguments: copy
  for (size_t i = 0; i < f->argSlot.size(); i++) if (f->F->hasParamAttribute(i, Attribute::ByVal)) { Type* t = f->F->getParamByValType(i); u64 n = DL->getTypeAllocSize(t); Obj* o = newObj(S, n, O_STACK, "byval"); u64 b = o->base; memCopy(S, Val(b), args[i], Val(n), true, "byval"); fr->r[f->argSlot[i]] = Val(b); fr->allocas.push_back(b); }
  S.th[S.cur].st.push_back(fr);
}
// advance the caller after its call instruction returned `v`
static void finishCall(State& S, const Val& v, bool setResult) {
  Frame& F = topF(S); const Ins& n = F.f->code[F.pc];
  if (setResult && n.dst >= 0) F.r[n.dst] = v;
  if (n.op == Instruction::Invoke) { moves(F, n.p0); F.pc = n.t0; } else F.pc++;
}
static void popFrame(State& S) { auto& st = S.th[S.cur].st; for (u64 a : st.back()->allocas) { Obj* o = findObj(S, a); if (o) freeObj(S, o); } st.pop_back(); }

// --- exceptions
static u64 rd64(State& S, u64 a) { Val v(a); return concretize(S, load(S, v, 8, 64), 64); }
static u64 gaddr(const char* n) { if (auto* g = M->getNamedValue(n)) { auto it = GAddr.find(g); if (it != GAddr.end()) return it->second; } return 0; }
static bool typeMatch(State& S, u64 thrown, u64 want, int depth = 0) {
  if (thrown == want) return true; if (depth > 16 || !thrown) return false;
  static u64 si = gaddr("_ZTVN10__cxxabiv120__si_class_type_infoE"), vmi = gaddr("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
  Obj* o = findObj(S, thrown); if (!o) return false; u64 vp = rd64(S, thrown);
  if (si && vp == si + 16) return typeMatch(S, rd64(S, thrown + 16), want, depth + 1);
  if (vmi && vp == vmi + 16) { u64 n = rd64(S, thrown + 16) >> 32; for (u64 i = 0; i < n; i++) if (typeMatch(S, rd64(S, thrown + 24 + 16 * i), want, depth + 1)) return true; }
  return false;
}
static u32 typeId(u64 ti) { auto it = TypeIds.find(ti); if (it != TypeIds.end()) return it->second; u32 k = TypeIds.size() + 1; TypeIds[ti] = k; return k; }
// 0 none, 1 cleanup only, 2 handler (sel set)
static int lpMatch(State& S, const LandingPadInst* lp, u64 ti, u64& sel) {
  for (unsigned i = 0; i < lp->getNumClauses(); i++) { Constant* c = lp->getClause(i);
    if (lp->isCatch(i)) { u64 w = evalConst(c).c; if (w == 0 || typeMatch(S, ti, w)) { sel = typeId(w); return 2; } }
    else { auto* at = cast<ArrayType>(c->getType()); bool in = false; for (u64 k = 0; k < at->getNumElements(); k++) { u64 w = evalConst(cast<Constant>(c->getAggregateElement((unsigned)k))).c; if (w == 0 || typeMatch(S, ti, w)) in = true; } if (!in) { sel = (u64)-1; return 2; } } }
  sel = 0; return lp->isCleanup() ? 1 : 0;
}
static const LandingPadInst* lpOf(Frame& F) { const Ins& n = F.f->code[F.pc]; if (n.op != Instruction::Invoke) return nullptr; return cast<InvokeInst>(n.I)->getLandingPadInst(); }
static std::string tiName(State& S, u64 ti) { Obj* o = findObj(S, ti); return o ? demangle(o->name) : "?"; }
// unwind with exception `ex`, starting at the frame on top of the stack (whose pc is at the throwing call)
static void unwind(State& S, u64 ex) {
  auto& st = S.th[S.cur].st; u64 ti = S.exc[ex].ti, sel = 0; bool found = false;
  for (size_t i = st.size(); i-- > 0;) { if (auto* lp = lpOf(*st[i])) if (lpMatch(S, lp, ti, sel) == 2) { found = true; break; } if (st[i]->discard) break; }
  if (!found) err(S, "uncaught-exception", tiName(S, ti), "exception " + tiName(S, ti) + " has no handler: std::terminate");
  while (!st.empty()) {
    if (auto* lp = lpOf(*st.back())) { int m = lpMatch(S, lp, ti, sel);
      if (m) { Frame& F = topF(S); const Ins& n = F.f->code[F.pc]; moves(F, n.p1); F.pc = n.t1; const Ins& l = F.f->code[F.pc]; if (l.op != Instruction::LandingPad) fatal("landingpad expected"); Agg* a = new Agg; a->v = {Val(ex), Val(sel & 0xffffffff)}; F.r[l.dst] = Val(); F.r[l.dst].a = a; F.pc++; return; } }
    popFrame(S);
  }
  fatal("unwind fell off");
}
static void excRelease(State& S, u64 ex, bool callDtor);

// --- builtins.  Handler returns: 0 result ready, 1 control already transferred
typedef int (*BFn)(State& S, const Ins& n, std::vector<Val>& a, Val& r);
static std::vector<BFn> BTAB; static std::map<std::string, int> BNAME;
static void reg(const char* n, BFn f) { BNAME[n] = BTAB.size(); BTAB.push_back(f); }

static u64 gaddr(const char* n);
static bool refuseAlloc(State& S, const Val& size) { static u64 g = gaddr("env_alloc"); if (!g) return false; Obj* o = findObj(S, g); i64 c = (i64)readDense(o, 0, 8).c, mn = (i64)readDense(o, 8, 8).c; if (c <= 0) return false;
  if (size.e ? !(mn <= 1) : (i64)size.c < mn) return false; c--; o = writable(S, o); writeDense(o, 0, Val((u64)c), 8); if (c) return false; writeDense(o, 16, Val(readDense(o, 16, 8).c + 1), 8); return true; }
static Val doMalloc(State& S, const Val& size, OKind k, const char* nm) {
  if (refuseAlloc(S, size)) return Val(0);
  if (size.e) { E big = mkUlt(mkC(ALLOC_LIMIT, 64), size.e); if (decide(S, big)) return Val(0);
    // capacity: largest feasible value (by galloping on powers of two)
    u64 cap = 16; while (cap < ALLOC_LIMIT && mayBe(S, mkUlt(mkC(cap, 64), size.e))) cap *= 2;
    Obj* o = newObj(S, cap, k, nm); o->sizeE = size.e; S.live++; return Val(o->base); }
  if (size.c > OBJ_MAX) return Val(0);
  Obj* o = newObj(S, size.c, k, nm); S.live++; S.liveB += (i64)size.c; return Val(o->base);
}
static void doFree(State& S, const Val& p, int kind) { // kind 0 free, 1 delete, 2 delete[]
  u64 a = concretize(S, p, 64); if (!a) return; Obj* o = findObj(S, a);
  const char* w = kind == 0 ? "free" : kind == 1 ? "operator delete" : "operator delete[]";
  if (!o) err(S, "double-free", w, std::string(w) + ": " + ptrDesc(S, a));
  if (o->base != a || (o->kind != O_HEAP && o->kind != O_NEW && o->kind != O_NEWARR)) err(S, "bad-free", w, std::string(w) + ": " + ptrDesc(S, a));
  if ((kind == 0) != (o->kind == O_HEAP) || (kind == 2) != (o->kind == O_NEWARR)) err(S, "alloc-dealloc-mismatch", w, std::string(w) + ": " + ptrDesc(S, a));
  if (!o->sizeE) S.liveB -= (i64)o->size; freeObj(S, o); S.live--;
}
static void excRelease(State& S, u64 ex, bool) {
  auto& x = S.exc[ex]; if (--x.refs > 0) return; u64 d = x.dtor; S.exc.erase(ex);
  Obj* o = findObj(S, ex);
  if (d) { u64 i = (d - FUNC_BASE) / 64; if (i < FByIdx.size() && FByIdx[i] && FByIdx[i]->hasBody) { // run the destructor; memory is leaked into the graveyard (never reused)
      pushCall(S, FByIdx[i], {Val(ex)}, -1, true); return; } }
  if (o) freeObj(S, o);
}
static Val newInput(State& S, const std::string& nm0, u32 w) {
  std::string nm = nm0; u32 k = S.names[nm0]++; if (k) nm += "#" + std::to_string(k);
  // variables are shared between paths by name so that the solver cache works
  static std::map<std::pair<std::string, u32>, E> cache; auto key = std::make_pair(nm, w); auto it = cache.find(key); E v = it != cache.end() ? it->second : (cache[key] = mkVar(nm, w));
  S.in.push_back({nm, w, v, 0, 0}); return ofE(v);
}
#define BF(n) static int n(State& S, const Ins& I, std::vector<Val>& a, Val& r)
BF(b_malloc) { r = doMalloc(S, a[0], O_HEAP, "malloc"); return 0; }
BF(b_calloc) { u64 x = concretize(S, a[0], 64), y = concretize(S, a[1], 64); r = doMalloc(S, Val(x * y), O_HEAP, "calloc"); if (r.c) memSet(S, r, Val(0), Val(x * y)); return 0; }
BF(b_realloc) { u64 p = concretize(S, a[0], 64); if (!p) { r = doMalloc(S, a[1], O_HEAP, "realloc"); return 0; }
  Obj* o = findObj(S, p); if (!o || o->base != p || o->kind != O_HEAP) err(S, "bad-free", "realloc", ptrDesc(S, p));
  if (a[1].e) { (void)concretize(S, a[1], 64); } u64 ns = a[1].e ? concretize(S, a[1], 64) : a[1].c; u64 os = o->size; Val q = doMalloc(S, Val(ns), O_HEAP, "realloc"); if (!q.c) { r = q; return 0; }
  memCopy(S, q, Val(p), Val(std::min(os, ns)), true, "realloc"); if (Obj* w = findObj(S, p)) { if (!w->sizeE) S.liveB -= (i64)w->size; freeObj(S, w); } S.live--; r = q; return 0; }
BF(b_free) { doFree(S, a[0], 0); return 0; }
BF(b_new) { r = doMalloc(S, a[0], O_NEW, "operator new"); if (!r.e && r.c == 0) { FuncInfo* f = FByName["_ZSt17__throw_bad_allocv"]; if (f && f->hasBody) { pushCall(S, f, {}, -1); return 1; } err(S, "bad-alloc", "new", "operator new failed"); } return 0; }
BF(b_newarr) { r = doMalloc(S, a[0], O_NEWARR, "operator new[]"); if (!r.e && r.c == 0) { FuncInfo* f = FByName["_ZSt17__throw_bad_allocv"]; if (f && f->hasBody) { pushCall(S, f, {}, -1); return 1; } } return 0; }
BF(b_newnt) { r = doMalloc(S, a[0], O_NEW, "operator new(nothrow)"); return 0; }
BF(b_delete) { doFree(S, a[0], 1); return 0; }
BF(b_deletearr) { doFree(S, a[0], 2); return 0; }
BF(b_memcpy) { memCopy(S, a[0], a[1], a[2], false, "memcpy"); r = a[0]; return 0; }
BF(b_memmove) { memCopy(S, a[0], a[1], a[2], true, "memmove"); r = a[0]; return 0; }
BF(b_memset) { memSet(S, a[0], a[1], a[2]); r = a[0]; return 0; }
BF(b_memcmp) { Val n = a[2]; u64 k = concretize(S, n, 64); if (!k) { r = Val(0); return 0; } Val nn(k), p = a[0], q = a[1];
  Obj* o1 = resolve(S, p, k, false, "memcmp"); Obj* o2 = resolve(S, q, k, false, "memcmp"); 
  bool lz = o1->lazy || o2->lazy; u64 x = 0, y = 0; if (!lz) { x = concretize(S, p, 64); y = concretize(S, q, 64); o1 = findObj(S, x); o2 = findObj(S, y); }
  E res = mkC(0, 32); for (u64 i = k; i-- > 0;) { E e1, e2;
    if (lz) { Val pp = p.e ? ofE(mkAdd(p.e, mkC(i, 64))) : Val(p.c + i), qq = q.e ? ofE(mkAdd(q.e, mkC(i, 64))) : Val(q.c + i); e1 = toE(load(S, pp, 1, 8), 8); e2 = toE(load(S, qq, 1, 8), 8); }
    else { u8 c1, c2; e1 = rdByteE(o1, x - o1->base + i, c1); e2 = rdByteE(o2, y - o2->base + i, c2); if (!e1) e1 = mkC(c1, 8); if (!e2) e2 = mkC(c2, 8); }
    res = mkIte(mkEq(e1, e2), res, mkIte(mkUlt(e1, e2), mkC(0xffffffff, 32), mkC(1, 32))); }
  r = ofE(res); return 0; }
BF(b_bcmp) { b_memcmp(S, I, a, r); if (r.e) r = ofE(mkIte(mkEq(r.e, mkC(0, 32)), mkC(0, 32), mkC(1, 32))); return 0; }
BF(b_strlen) { u64 p = concretize(S, a[0], 64); for (u64 i = 0;; i++) { Val q(p + i); Val v = load(S, q, 1, 8); if (!v.e) { if (!v.c) { r = Val(i); return 0; } continue; } if (decide(S, mkEq(v.e, mkC(0, 8)))) { r = Val(i); return 0; } } }
BF(b_abort) { err(S, "abort", "abort", "abort() called"); }
BF(b_terminate) { std::string what = "std::terminate()"; if (!S.th[S.cur].caught.empty()) what += " while handling " + tiName(S, S.exc[S.th[S.cur].caught.back()].ti); err(S, "terminate", "terminate", what); }
BF(b_pure) { err(S, "pure-virtual", "pure-virtual", "pure virtual call"); }
BF(b_nop) { r = Val(0); return 0; }
BF(b_guard_acquire) { if (!a[0].e) S.race.acq(S.cur, a[0].c); Val v = load(S, a[0], 1, 8); r = Val(concretize(S, v, 8) ? 0 : 1); return 0; }
BF(b_guard_release) { if (!a[0].e) S.race.rel(S.cur, a[0].c); store(S, a[0], Val(1), 1, 8); return 0; }
BF(b_alloc_exc) { u64 n = concretize(S, a[0], 64); Obj* o = newObj(S, n ? n : 1, O_EXC, "exception"); S.exc[o->base] = ExcInfo(); r = Val(o->base); return 0; }
BF(b_free_exc) { u64 p = concretize(S, a[0], 64); S.exc.erase(p); if (Obj* o = findObj(S, p)) freeObj(S, o); return 0; }
BF(b_throw) { u64 ex = a[0].c; auto& x = S.exc[ex]; x.ti = a[1].c; x.dtor = a[2].c; x.refs++; S.th[S.cur].flying++; unwind(S, ex); return 1; }
BF(b_init_primary) { u64 ex = a[0].c; auto& x = S.exc[ex]; x.ti = a[1].c; x.dtor = a[2].c; x.refs = 0; r = a[0]; return 0; }
BF(b_begin_catch) { u64 ex = concretize(S, a[0], 64); auto& x = S.exc[ex]; auto& c = S.th[S.cur].caught; if (S.th[S.cur].flying) S.th[S.cur].flying--; if (x.handlers == 0 || c.empty() || c.back() != ex) c.push_back(ex); x.handlers++; r = Val(ex); return 0; }
BF(b_end_catch) { auto& c = S.th[S.cur].caught; if (c.empty()) return 0; u64 ex = c.back(); auto& x = S.exc[ex]; if (--x.handlers > 0) return 0; c.pop_back(); if (x.rethrown) { x.rethrown = false; return 0; }
  // release: may run the destructor as a nested frame, after this call instruction completed
  finishCall(S, Val(0), false); if (--x.refs > 0) return 1; u64 d = x.dtor; S.exc.erase(ex); 
  if (d) { u64 i = (d - FUNC_BASE) / 64; if (i < FByIdx.size() && FByIdx[i] && FByIdx[i]->hasBody) pushCall(S, FByIdx[i], {Val(ex)}, -1, true); } return 1; }
BF(b_rethrow) { auto& c = S.th[S.cur].caught; if (c.empty()) err(S, "terminate", "rethrow", "rethrow without exception"); u64 ex = c.back(); S.exc[ex].rethrown = true; S.th[S.cur].flying++; unwind(S, ex); return 1; }
BF(b_ep_addref) { u64 e = rd64(S, concretize(S, a[0], 64)); if (e) S.exc[e].refs++; return 0; }
BF(b_ep_release) { u64 p = concretize(S, a[0], 64); u64 e = rd64(S, p); if (!e) return 0; store(S, Val(p), Val(0), 8, 64); auto& x = S.exc[e]; if (--x.refs > 0) return 0; finishCall(S, Val(0), false); u64 d = x.dtor; S.exc.erase(e); if (d) { u64 i = (d - FUNC_BASE) / 64; if (i < FByIdx.size() && FByIdx[i] && FByIdx[i]->hasBody) pushCall(S, FByIdx[i], {Val(e)}, -1, true); } return 1; }
BF(b_ep_ctor) { u64 e = concretize(S, a[1], 64); store(S, a[0], Val(e), 8, 64); if (e) S.exc[e].refs++; return 0; }
BF(b_uncaught) { r = Val(S.th[S.cur].flying); return 0; }
BF(b_uncaught1) { r = Val(S.th[S.cur].flying ? 1 : 0); return 0; }
BF(b_current_exc) { auto& c = S.th[S.cur].caught; u64 e = c.empty() ? 0 : c.back(); if (e) S.exc[e].refs++; store(S, a[0], Val(e), 8, 64); return 0; }
BF(b_rethrow_ep) { u64 e = rd64(S, concretize(S, a[0], 64)); if (!e) err(S, "terminate", "rethrow", "null exception_ptr"); S.exc[e].refs++; S.th[S.cur].flying++; unwind(S, e); return 1; }
BF(b_errno) { static u64 g = 0; if (!g) g = gaddr("__vs_errno"); if (!g) fatal("__vs_errno missing"); r = Val(g); return 0; }
BF(b_dyncast) { // only same-object casts along the primary base: succeed iff the dynamic type derives from dst
  u64 p = concretize(S, a[0], 64); u64 vt = rd64(S, p); u64 ti = rd64(S, vt - 8); r = Val(typeMatch(S, ti, a[2].c) ? p : 0); return 0; }
// --- harness API
BF(b_vs_in) { std::string nm = cstr(S, a[0]); u32 w = a[1].c; Val v = newInput(S, nm, w); r = ofE(mkZExt(toE(v, w), 64)); return 0; }
BF(b_vs_bytes) { u64 p = concretize(S, a[0], 64), n = concretize(S, a[1], 64); std::string nm = cstr(S, a[2]); for (u64 i = 0; i < n; i++) { Val v = newInput(S, nm, 8); Val q(p + i); store(S, q, v, 1, 8); } return 0; }
BF(b_vs_assume) { Val c = a[0]; if (!c.e) { if (c.c & 1) return 0; nKilled++; throw PathEnd{1}; }
  E e = c.e->w == 1 ? c.e : mkNot(mkEq(c.e, mkC(0, c.e->w))); std::shared_ptr<ModelEval> m; int q = query(S, e, &m); if (q != 1) { if (q < 0) { truncated = true; truncReason = "solver unknown"; } nKilled++; throw PathEnd{1}; } addPC(S, e); S.me = m; return 0; }
BF(b_vs_assert) { nAsserts++; Val c = a[0]; std::string id = cstr(S, a[1]); if (!c.e) { if (c.c & 1) return 0; err(S, "assert", id, "assertion violated"); }
  E e = c.e->w == 1 ? c.e : mkNot(mkEq(c.e, mkC(0, c.e->w))); std::shared_ptr<ModelEval> m; int q = query(S, mkNot(e), &m); if (q == 1) { report(S, "assert", id, "assertion violated", m.get()); if (query(S, e, &m) != 1) throw PathEnd{2}; addPC(S, e); S.me = m; } else if (q < 0) { truncated = true; truncReason = "solver unknown on assertion " + id; } return 0; }
BF(b_vs_fail) { nAsserts++; err(S, "assert", cstr(S, a[0]), "failure reached"); }
BF(b_vs_choose) { u64 n = a[0].c; std::string nm = cstr(S, a[1]); if (n <= 1) { r = Val(0); return 0; }
  // find (or create) the choice variable for this occurrence: creation and concretisation must be one step
  Val v = newInput(S, nm, 8); E e = toE(v, 8); E lim = mkUlt(e, mkC(n, 8)); std::shared_ptr<ModelEval> m; if (query(S, lim, &m) != 1) throw PathEnd{1}; addPC(S, lim); S.me = m;
  u64 cur = (u64)S.me->ev.ev(e);
  // the forks restart after the choice, so finish the call in each clone
  for (u64 k = 0; k < n; k++) if (k != cur) { E eq = mkEq(e, mkC(k, 8)); std::shared_ptr<ModelEval> m2; if (query(S, eq, &m2) == 1) { auto c = std::make_shared<State>(S); addPC(*c, eq); c->me = m2; c->forks++; nForks++; finishCall(*c, Val(k), true); WORK.push_back(c); } }
  addPC(S, mkEq(e, mkC(cur, 8))); r = Val(cur); return 0; }
BF(b_vs_concrete) { r = Val(concretize(S, a[0], 64)); return 0; }
BF(b_vs_unique) { // the value itself, as a constant when the path allows only one
  r = a[0]; if (!r.e) return 0; for (auto& p : S.conc) if (p.first == r.e) { r = Val(p.second); return 0; }
  u64 x = (u64)S.me->ev.ev(r.e); E eq = mkEq(r.e, mkC(x, 64)); std::shared_ptr<ModelEval> m; if (isC(eq) || query(S, mkNot(eq), &m) == 0) { S.conc.push_back({r.e, x}); r = Val(x); } return 0; }
BF(b_vs_is_sym) { r = Val(a[0].e ? 1 : 0); return 0; }
BF(b_vs_reach) { reached.insert(cstr(S, a[0])); return 0; }
BF(b_vs_observe) { S.obs.push_back({cstr(S, a[0]), a[1]}); return 0; }
BF(b_vs_note) { S.notes.push_back(cstr(S, a[0])); return 0; }
BF(b_vs_trace) { if (VERBOSE) { fprintf(stderr, "[trace t%u] %s", S.cur, cstr(S, a[0]).c_str()); for (size_t i = 1; i < a.size(); i++) { if (a[i].e) fprintf(stderr, " sym(%llu)", (unsigned long long)S.me->ev.ev(a[i].e)); else fprintf(stderr, " %lld", (long long)a[i].c); } fprintf(stderr, "\n"); } return 0; }
BF(b_vs_param) { auto it = PARAM.find(cstr(S, a[0])); r = it != PARAM.end() ? Val((u64)it->second) : a[1]; return 0; }
BF(b_vs_live_bytes) { r = Val((u64)S.liveB); return 0; }
BF(b_vs_live) { r = Val((u64)S.live); return 0; }
BF(b_vs_end) { throw PathEnd{0}; }
BF(b_vs_obj_size) { u64 p = concretize(S, a[0], 64); Obj* o = findObj(S, p); r = Val(o ? o->size - (p - o->base) : 0); return 0; }
BF(b_vs_valid) { u64 p = concretize(S, a[0], 64), n = concretize(S, a[1], 64); Obj* o = findObj(S, p); r = Val(o && okRange(o, p, n)); return 0; }
BF(b_vs_lazy) { // (size, name, mode: 0 zero filled, 1 arbitrary)
  u64 i = S.huge.size(); if (i >= 31) fatal("too many lazy objects"); auto o = std::make_shared<Obj>(); o->base = HUGE_BASE | (i << 58) | HUGE_OFF; o->kind = O_LAZY; o->lazy = true; std::string nm = cstr(S, a[1]); o->name = nm; o->sizeE = toE(a[0], 64); o->size = 1ull << 57; 
  static std::map<std::string, u32> arrs; o->lbase = new LBase{a[2].c == 1, 0, (u8)(a[2].c == 1 ? 0 : 0)}; if (a[2].c == 1) { u32 k = S.names[nm]++; std::string an = k ? nm + "#" + std::to_string(k) : nm; auto it = arrs.find(an); u32 ar = it != arrs.end() ? it->second : (arrs[an] = mkArray(an)); o->lbase->arr = ar; S.in.push_back({an, 0, nullptr, ar, 1}); }
  S.huge.push_back(o); r = Val(o->base); return 0; }
BF(b_vs_free_lazy) { u64 p = concretize(S, a[0], 64); u64 i = (p >> 58) & 31; if (!(p & HUGE_BASE) || i >= S.huge.size() || !S.huge[i]) err(S, "bad-free", "unmap", ptrDesc(S, p)); S.huge[i].reset(); return 0; }
BF(b_vs_shmalloc) { // dense shared object, not counted as heap
  u64 n = concretize(S, a[0], 64); Obj* o = newObj(S, n, O_GLOBAL, cstr(S, a[1]).c_str(), 0); r = Val(o->base); return 0; }
BF(b_vs_shmfree) { u64 p = concretize(S, a[0], 64); Obj* o = findObj(S, p); if (!o || o->base != p) err(S, "bad-free", "shm", ptrDesc(S, p)); freeObj(S, o); return 0; }
BF(b_vs_thread_new) { u64 fn = concretize(S, a[0], 64); u64 i = (fn - FUNC_BASE) / 64; if (i >= FByIdx.size() || !FByIdx[i]) fatal("thread fn"); u32 t = S.th.size(); S.th.push_back(Thread()); u32 c = S.cur; S.cur = t; pushCall(S, FByIdx[i], {a[1]}, -1); S.cur = c; r = Val(t); return 0; }
BF(b_vs_switch) { u64 t = concretize(S, a[0], 64); finishCall(S, Val(0), false); if (t >= S.th.size() || S.th[t].st.empty()) fatal("switch to dead thread"); S.cur = t; return 1; }
BF(b_vs_self) { r = Val(S.cur); return 0; }
BF(b_vs_thread_end) { u64 t = concretize(S, a[0], 64); while (!S.th[S.cur].st.empty()) popFrame(S); S.cur = t; if (t >= S.th.size() || S.th[t].st.empty()) fatal("thread_end to dead thread"); return 1; }
BF(b_vs_step) { r = Val(S.steps); return 0; }

// --- race detection: instrumented accesses and the synchronisation told by the environment model
static u32 raceLoc(State& S) { auto& st = S.th[S.cur].st; for (size_t i = st.size(); i-- > 0;) { Frame& f = *st[i]; if (f.f->isRepo && f.f->name.find("msgpack") == std::string::npos) return (u32)((f.f->addr - FUNC_BASE) / 64); } return st.empty() ? 1 : (u32)((st.back()->f->addr - FUNC_BASE) / 64); }
static std::string shortFn(u32 i) { if (i >= FByIdx.size() || !FByIdx[i]) return "?"; std::string n = demangle(FByIdx[i]->name); size_t p = n.find('('); if (p != std::string::npos && p) n.resize(p); if (n.size() > 80) n.resize(80); return n; }
static void raceAccess(State& S, const Val& p, u64 n, int kind) { if (!S.race.on || p.e || p.c < 4096) return; u32 l = raceLoc(S); u32 b = S.race.access(S.cur, p.c, n, kind, l); if (!b) return; std::string x = shortFn(b), y = shortFn(l); if (y < x) std::swap(x, y);
  err(S, "race", "data race between " + x + " and " + y, ptrDesc(S, p.c) + ((kind & 1) ? " is written" : " is read") + " while another thread uses it without synchronisation"); }
#define RACE_RW(N) BF(b_tsan_r##N) { raceAccess(S, a[0], N, 0); return 0; } BF(b_tsan_w##N) { raceAccess(S, a[0], N, 1); return 0; }
RACE_RW(1) RACE_RW(2) RACE_RW(4) RACE_RW(8) RACE_RW(16)
BF(b_tsan_vr) { raceAccess(S, a[0], 8, 0); return 0; }
BF(b_tsan_vu) { if (S.race.on && !a[0].e) { Val v = load(S, a[0], 8, 64); raceAccess(S, a[0], 8, !v.e && v.c == a[1].c ? 0 : 1); } return 0; }
BF(b_tsan_memcpy) { if (!a[2].e) { raceAccess(S, a[1], a[2].c, 0); raceAccess(S, a[0], a[2].c, 1); } memCopy(S, a[0], a[1], a[2], true, "memcpy"); r = a[0]; return 0; }
BF(b_tsan_memset) { if (!a[2].e) raceAccess(S, a[0], a[2].c, 1); memSet(S, a[0], a[1], a[2]); r = a[0]; return 0; }
BF(b_hb_acq) { S.race.acq(S.cur, concretize(S, a[0], 64)); return 0; }
BF(b_hb_rel) { S.race.rel(S.cur, concretize(S, a[0], 64)); return 0; }
BF(b_hb_all) { S.race.all(S.cur); return 0; }
BF(b_hb_on) { S.race.on = concretize(S, a[0], 32) != 0; return 0; }
BF(b_hb_access) { raceAccess(S, a[0], concretize(S, a[1], 64), (int)concretize(S, a[2], 32)); return 0; }
static void setupBuiltins() {
  reg("vs_hb_acq", b_hb_acq); reg("vs_hb_rel", b_hb_rel); reg("vs_hb_all", b_hb_all); reg("vs_hb_on", b_hb_on); reg("vs_hb_access", b_hb_access);
  reg("__tsan_read1", b_tsan_r1); reg("__tsan_read2", b_tsan_r2); reg("__tsan_read4", b_tsan_r4); reg("__tsan_read8", b_tsan_r8); reg("__tsan_read16", b_tsan_r16); reg("__tsan_write1", b_tsan_w1); reg("__tsan_write2", b_tsan_w2); reg("__tsan_write4", b_tsan_w4); reg("__tsan_write8", b_tsan_w8); reg("__tsan_write16", b_tsan_w16);
  reg("__tsan_unaligned_read2", b_tsan_r2); reg("__tsan_unaligned_read4", b_tsan_r4); reg("__tsan_unaligned_read8", b_tsan_r8); reg("__tsan_unaligned_read16", b_tsan_r16); reg("__tsan_unaligned_write2", b_tsan_w2); reg("__tsan_unaligned_write4", b_tsan_w4); reg("__tsan_unaligned_write8", b_tsan_w8); reg("__tsan_unaligned_write16", b_tsan_w16);
  reg("__tsan_vptr_read", b_tsan_vr); reg("__tsan_vptr_update", b_tsan_vu); reg("__tsan_memcpy", b_tsan_memcpy); reg("__tsan_memmove", b_tsan_memcpy); reg("__tsan_memset", b_tsan_memset); reg("__tsan_init", b_nop); reg("__tsan_func_entry", b_nop); reg("__tsan_func_exit", b_nop);
  reg("malloc", b_malloc); reg("calloc", b_calloc); reg("realloc", b_realloc); reg("free", b_free);
  reg("_Znwm", b_new); reg("_Znam", b_newarr); reg("_ZnwmRKSt9nothrow_t", b_newnt); reg("_ZnamRKSt9nothrow_t", b_newnt); reg("_ZdlPv", b_delete); reg("_ZdlPvm", b_delete); reg("_ZdlPvRKSt9nothrow_t", b_delete); reg("_ZdaPvRKSt9nothrow_t", b_deletearr); reg("_ZdaPv", b_deletearr); reg("_ZdaPvm", b_deletearr);
  reg("memcpy", b_memcpy); reg("memmove", b_memmove); reg("memset", b_memset); reg("memcmp", b_memcmp); reg("bcmp", b_bcmp); reg("strlen", b_strlen);
  reg("abort", b_abort); reg("_ZSt9terminatev", b_terminate); reg("__cxa_pure_virtual", b_pure); reg("__cxa_atexit", b_nop);
  reg("__cxa_guard_acquire", b_guard_acquire); reg("__cxa_guard_release", b_guard_release); reg("__cxa_guard_abort", b_nop);
  reg("__cxa_allocate_exception", b_alloc_exc); reg("__cxa_free_exception", b_free_exc); reg("__cxa_throw", b_throw); reg("__cxa_begin_catch", b_begin_catch); reg("__cxa_end_catch", b_end_catch); reg("__cxa_rethrow", b_rethrow); reg("__cxa_init_primary_exception", b_init_primary);
  reg("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", b_ep_addref); reg("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", b_ep_release); reg("_ZNSt15__exception_ptr13exception_ptrC1EPv", b_ep_ctor); reg("_ZNSt15__exception_ptr13exception_ptrC2EPv", b_ep_ctor); reg("_ZSt17current_exceptionv", b_current_exc); reg("_ZSt19uncaught_exceptionsv", b_uncaught); reg("_ZSt18uncaught_exceptionv", b_uncaught1); reg("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", b_rethrow_ep);
  reg("__errno_location", b_errno); reg("__dynamic_cast", b_dyncast);
  reg("vs_in", b_vs_in); reg("vs_bytes", b_vs_bytes); reg("vs_assume_", b_vs_assume); reg("vs_assert_", b_vs_assert); reg("vs_fail", b_vs_fail); reg("vs_choose", b_vs_choose); reg("vs_concrete", b_vs_concrete); reg("vs_unique", b_vs_unique); reg("vs_is_symbolic", b_vs_is_sym); reg("vs_reach", b_vs_reach); reg("vs_observe", b_vs_observe); reg("vs_note", b_vs_note); reg("vs_trace", b_vs_trace); reg("vs_param", b_vs_param); reg("vs_live", b_vs_live); reg("vs_live_bytes", b_vs_live_bytes); reg("vs_end", b_vs_end); reg("vs_obj_size", b_vs_obj_size); reg("vs_valid", b_vs_valid); reg("vs_lazy", b_vs_lazy); reg("vs_lazy_free", b_vs_free_lazy); reg("vs_shmalloc", b_vs_shmalloc); reg("vs_shmfree", b_vs_shmfree);
  reg("vs_thread_new", b_vs_thread_new); reg("vs_switch", b_vs_switch); reg("vs_self", b_vs_self); reg("vs_thread_end", b_vs_thread_end); reg("vs_step", b_vs_step);
  for (auto& kv : FByName) { if (kv.second->hasBody) continue; std::string n = kv.first; if (n.compare(0, 7, "__real_") == 0) n = n.substr(7); auto it = BNAME.find(n); if (it != BNAME.end()) kv.second->builtin = it->second; }
}

// --- intrinsics
static int intrinsic(State& S, const Ins& n, std::vector<Val>& a, Val& r) {
  u32 w = n.w;
  switch ((Intrinsic::ID)n.pred) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: return 0;
    case Intrinsic::stacksave: r = Val(0); return 0; case Intrinsic::stackrestore: return 0;
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: memCopy(S, a[0], a[1], a[2], false, "memcpy"); return 0;
    case Intrinsic::memmove: memCopy(S, a[0], a[1], a[2], true, "memmove"); return 0;
    case Intrinsic::memset: case Intrinsic::memset_inline: memSet(S, a[0], a[1], a[2]); return 0;
    case Intrinsic::trap: case Intrinsic::ubsantrap: err(S, "trap", "trap", "llvm.trap reached");
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect_with_probability: r = a[0]; return 0;
    case Intrinsic::threadlocal_address: { if (!S.cur || a[0].e) { r = a[0]; return 0; } auto& m = S.th[S.cur].tls; auto it = m.find(a[0].c); if (it != m.end()) { r = Val(it->second); return 0; }
      auto g = TlsOf.find(a[0].c); if (g == TlsOf.end()) { r = a[0]; return 0; } GlobalVariable* G = g->second; u64 sz = DL->getTypeAllocSize(G->getValueType()); if (G->isDeclaration()) sz = std::max<u64>(sz, 64);
      Obj* o = newObj(S, sz, O_GLOBAL, G->getName().str().c_str(), 0); if (G->hasInitializer()) writeConst(o, 0, G->getInitializer()); m[a[0].c] = o->base; r = Val(o->base); return 0; }
    case Intrinsic::is_constant: r = Val(0); return 0; case Intrinsic::objectsize: r = Val((u64)-1 & mask(w)); return 0;
    case Intrinsic::eh_typeid_for: r = Val(typeId(concretize(S, a[0], 64))); return 0;
    case Intrinsic::vastart: { Frame& F = *S.th[S.cur].st.back(); u64 p = concretize(S, a[0], 64); store(S, Val(p), Val(48), 4, 32); store(S, Val(p + 4), Val(304), 4, 32); store(S, Val(p + 8), Val(F.varargs), 8, 64); store(S, Val(p + 16), Val(0), 8, 64); return 0; }
    case Intrinsic::vaend: return 0;
    case Intrinsic::vacopy: memCopy(S, a[0], a[1], Val(24), true, "va_copy"); return 0;
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: { E x = toE(a[0], w), y = toE(a[1], w), c; auto id = n.pred; c = (id == Intrinsic::umin || id == Intrinsic::umax) ? mkUlt(x, y) : mkSlt(x, y); r = ofE((id == Intrinsic::umin || id == Intrinsic::smin) ? mkIte(c, x, y) : mkIte(c, y, x)); return 0; }
    case Intrinsic::abs: { E x = toE(a[0], w); r = ofE(mkIte(mkSlt(x, mkC(0, w)), mkSub(mkC(0, w), x), x)); return 0; }
    case Intrinsic::bswap: { if (!a[0].e) { u64 x = a[0].c; r = Val(w == 16 ? __builtin_bswap16(x) : w == 32 ? __builtin_bswap32(x) : __builtin_bswap64(x)); return 0; } E x = a[0].e, o = mkExtract(x, 0, 8); for (u32 i = 8; i < w; i += 8) o = mkConcat(o, mkExtract(x, i, 8)); r = ofE(o); return 0; }
    case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: {
      if (!a[0].e) { u64 x = a[0].c & mask(w); if (n.pred == Intrinsic::ctpop) r = Val(__builtin_popcountll(x)); else if (n.pred == Intrinsic::ctlz) r = Val(x ? __builtin_clzll(x) - (64 - w) : w); else r = Val(x ? __builtin_ctzll(x) : w); return 0; }
      E x = a[0].e, o; if (n.pred == Intrinsic::ctpop) { o = mkC(0, w); for (u32 i = 0; i < w; i++) o = mkAdd(o, mkZExt(mkExtract(x, i, 1), w)); }
      else if (n.pred == Intrinsic::ctlz) { o = mkC(w, w); for (u32 i = 0; i < w; i++) o = mkIte(mkExtract(x, i, 1), mkC(w - 1 - i, w), o); } else { o = mkC(w, w); for (u32 i = w; i-- > 0;) o = mkIte(mkExtract(x, i, 1), mkC(i, w), o); }
      r = ofE(o); return 0; }
    case Intrinsic::fshl: case Intrinsic::fshr: { u64 s = concretize(S, a[2], w) % w; if (n.pred == Intrinsic::fshr) { E x = mkConcat(toE(a[0], w), toE(a[1], w)); if (2 * w <= 64) { r = ofE(mkExtract(x, s, w)); return 0; } if (!s) { r = a[1]; return 0; } r = ofE(mkOr(mkShl(toE(a[0], w), mkC(w - s, w)), mkLShr(toE(a[1], w), mkC(s, w)))); return 0; } if (!s) { r = a[0]; return 0; } r = ofE(mkOr(mkShl(toE(a[0], w), mkC(s, w)), mkLShr(toE(a[1], w), mkC(w - s, w)))); return 0; }
    case Intrinsic::usub_sat: { E x = toE(a[0], w), y = toE(a[1], w); r = ofE(mkIte(mkUlt(x, y), mkC(0, w), mkSub(x, y))); return 0; }
    case Intrinsic::uadd_sat: { E x = toE(a[0], w), y = toE(a[1], w), s = mkAdd(x, y); r = ofE(mkIte(mkUlt(s, x), mkC(~0ull, w), s)); return 0; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      u32 ww = bitsOf(n.I->getOperand(0)->getType()); E x = toE(a[0], ww), y = toE(a[1], ww), v, o; auto id = n.pred;
      if (id == Intrinsic::uadd_with_overflow) { v = mkAdd(x, y); o = mkUlt(v, x); } else if (id == Intrinsic::usub_with_overflow) { v = mkSub(x, y); o = mkUlt(x, y); }
      else if (id == Intrinsic::umul_with_overflow) { v = mkMul(x, y); if (isC(x) && isC(y)) o = mkC(((u128)x->c * y->c) >> ww ? 1 : 0, 1); else if (isC(y) && y->c) o = mkUlt(mkC(mask(ww) / y->c, ww), x); else if (isC(x) && x->c) o = mkUlt(mkC(mask(ww) / x->c, ww), y); else if (isC(x) || isC(y)) o = mkC(0, 1); else { o = mkAnd(mkNot(mkEq(y, mkC(0, ww))), mkUlt(mkUDiv(mkC(mask(ww), ww), y), x)); } }
      else if (id == Intrinsic::sadd_with_overflow) { v = mkAdd(x, y); E sxn = mkSlt(x, mkC(0, ww)), sy = mkSlt(y, mkC(0, ww)), sv = mkSlt(v, mkC(0, ww)); o = mkAnd(mkEq(sxn, sy), mkNot(mkEq(sxn, sv))); }
      else if (id == Intrinsic::ssub_with_overflow) { v = mkSub(x, y); E sxn = mkSlt(x, mkC(0, ww)), sy = mkSlt(y, mkC(0, ww)), sv = mkSlt(v, mkC(0, ww)); o = mkAnd(mkNot(mkEq(sxn, sy)), mkNot(mkEq(sxn, sv))); }
      else { v = mkMul(x, y); if (isC(x) && isC(y)) { i128 p = (i128)sx(x->c, ww) * sx(y->c, ww); i64 t = sx((u64)p & mask(ww), ww); o = mkC(p != t, 1); } else { E X = mkSExt(x, 2 * ww), Y = mkSExt(y, 2 * ww), P = POOL().get(E_MUL, 2 * ww, 0, X, Y); o = mkNot(mkEq(P, mkSExt(v, 2 * ww))); } }
      Agg* g = new Agg; g->v = {ofE(v), ofE(o)}; r = Val(); r.a = g; return 0; }
    case Intrinsic::fabs: r = ofE(mkAnd(toE(a[0], w), mkC(mask(w) >> 1, w))); return 0;
    case Intrinsic::copysign: { E x = toE(a[0], w), y = toE(a[1], w); r = ofE(mkOr(mkAnd(x, mkC(mask(w) >> 1, w)), mkAnd(y, mkC(1ull << (w - 1), w)))); return 0; }
    case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: { E x = toE(a[0], w), y = toE(a[1], w), v = n.pred == Intrinsic::sadd_sat ? mkAdd(x, y) : mkSub(x, y), z = mkC(0, w), sxn = mkSlt(x, z), sy = mkSlt(y, z), sv = mkSlt(v, z); E ov = n.pred == Intrinsic::sadd_sat ? mkAnd(mkEq(sxn, sy), mkNot(mkEq(sxn, sv))) : mkAnd(mkNot(mkEq(sxn, sy)), mkNot(mkEq(sxn, sv)));
      r = ofE(mkIte(ov, mkIte(sxn, mkC(1ull << (w - 1), w), mkC(mask(w) >> 1, w)), v)); return 0; }
    case Intrinsic::ceil: case Intrinsic::floor: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::roundeven: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::sqrt: case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::fma: case Intrinsic::fmuladd: {
      double v[3] = {0, 0, 0}; for (size_t i = 0; i < a.size() && i < 3; i++) { u64 b = concretize(S, a[i], w); if (w == 64) memcpy(&v[i], &b, 8); else if (w == 32) { float f; u32 y = b; memcpy(&f, &y, 4); v[i] = f; } else fatal("unsupported intrinsic " + n.callee->name); }
      double x = v[0]; float xf = (float)x; switch (n.pred) { case Intrinsic::ceil: x = __builtin_ceil(x); break; case Intrinsic::floor: x = __builtin_floor(x); break; case Intrinsic::trunc: x = __builtin_trunc(x); break; case Intrinsic::round: x = __builtin_round(x); break; case Intrinsic::roundeven: case Intrinsic::rint: case Intrinsic::nearbyint: x = __builtin_rint(x); break; case Intrinsic::sqrt: x = w == 64 ? __builtin_sqrt(x) : __builtin_sqrtf(xf); break;
        case Intrinsic::minnum: x = __builtin_fmin(x, v[1]); break; case Intrinsic::maxnum: x = __builtin_fmax(x, v[1]); break; default: x = w == 64 ? __builtin_fma(x, v[1], v[2]) : __builtin_fmaf(xf, (float)v[1], (float)v[2]); break; }
      u64 o = 0; if (w == 64) memcpy(&o, &x, 8); else { float f = (float)x; u32 y; memcpy(&y, &f, 4); o = y; } r = Val(o); return 0; }
    default: fatal("unsupported intrinsic " + n.callee->name);
  }
}
static E fcmpE(u32 pred, E x, E y) {
  E un = mkOr(mkFP(E_FISNAN, 1, x), mkFP(E_FISNAN, 1, y)); E eq = mkFP(E_FEQ, 1, x, y), lt = mkFP(E_FLT, 1, x, y), gt = mkFP(E_FLT, 1, y, x), le = mkFP(E_FLE, 1, x, y), ge = mkFP(E_FLE, 1, y, x);
  switch (pred) { case CmpInst::FCMP_FALSE: return mkC(0, 1); case CmpInst::FCMP_TRUE: return mkC(1, 1);
    case CmpInst::FCMP_OEQ: return eq; case CmpInst::FCMP_OGT: return gt; case CmpInst::FCMP_OGE: return ge; case CmpInst::FCMP_OLT: return lt; case CmpInst::FCMP_OLE: return le;
    case CmpInst::FCMP_ONE: return mkAnd(mkNot(un), mkNot(eq)); case CmpInst::FCMP_ORD: return mkNot(un); case CmpInst::FCMP_UNO: return un;
    case CmpInst::FCMP_UEQ: return mkOr(un, eq); case CmpInst::FCMP_UGT: return mkNot(le); case CmpInst::FCMP_UGE: return mkNot(lt); case CmpInst::FCMP_ULT: return mkNot(ge); case CmpInst::FCMP_ULE: return mkNot(gt); case CmpInst::FCMP_UNE: return mkNot(eq); }
  fatal("fcmp");
}
static E dbl(double d, u32 w) { if (w == 64) { u64 x; memcpy(&x, &d, 8); return mkC(x, 64); } float f = d; u32 y; memcpy(&y, &f, 4); return mkC(y, 32); }

static FuncInfo* calleeOf(State& S, Frame& F, const Ins& n) {
  if (n.callee) return n.callee;
  u64 p = concretize(S, get(F, n.gep[0].first), 64); u64 i = (p - FUNC_BASE) / 64;
  if (p < FUNC_BASE || i >= FByIdx.size() || !FByIdx[i] || FByIdx[i]->addr != p) err(S, p < 65536 ? "null-deref" : "invalid-access", "call", "call through bad function pointer " + ptrDesc(S, p));
  return FByIdx[i];
}
static void doCall(State& S, Frame& F0, const Ins& n) {
  if (n.imm == 77) { finishCall(S, Val(0), true); return; } // empty inline asm barriers
  FuncInfo* cal = calleeOf(S, F0, n);
  std::vector<Val> a(n.ops.size()); for (size_t i = 0; i < n.ops.size(); i++) a[i] = get(F0, n.ops[i]);
  Val r;
  if (cal->F->isIntrinsic()) { intrinsic(S, n, a, r); finishCall(S, r, true); return; }
  if (cal->stub) { finishCall(S, Val(0), true); return; }
  if (cal->wrap && cal->hasBody && cal->wrap != F0.f && cal->file != F0.f->file) { pushCall(S, cal->wrap, a, n.dst); return; }
  if (cal->realOf) { pushCall(S, cal->realOf, a, n.dst); return; }
  if (cal->wrap && !F0.f->inWrap && !cal->hasBody) cal = cal->wrap;
  else if (cal->wrap && !cal->hasBody && F0.f->name != "__wrap_" + cal->name) cal = cal->wrap;
  if (cal->hasBody) { pushCall(S, cal, a, n.dst); return; }
  if (cal->builtin < 0) { err(S, "unmodelled", cal->name, "call to external function without a model"); }
  int k = BTAB[cal->builtin](S, n, a, r); if (k == 0) finishCall(S, r, true);
}
static Val aggGet(const Val& v, const std::vector<u32>& ix) { const Val* p = &v; for (u32 i : ix) { if (!p->a) return Val(0); p = &p->a->v[i]; } return *p; }
static Val aggSet(const Val& v, const Val& x, const std::vector<u32>& ix, size_t k, Type* t) {
  if (k == ix.size()) return x; Agg* g = new Agg; u64 n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements(); g->v.resize(n); if (v.a) for (u64 i = 0; i < n && i < v.a->v.size(); i++) g->v[i] = v.a->v[i];
  Type* et = t->isStructTy() ? t->getStructElementType(ix[k]) : t->getArrayElementType(); g->v[ix[k]] = aggSet(g->v[ix[k]], x, ix, k + 1, et); Val r; r.a = g; return r;
}
static Val loadT(State& S, const Val& p, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { Agg* g = new Agg; auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) { u64 o = sl->getElementOffset(i); g->v.push_back(loadT(S, p.e ? ofE(mkAdd(p.e, mkC(o, 64))) : Val(p.c + o), st->getElementType(i))); } Val r; r.a = g; return r; }
  if (auto* at = dyn_cast<ArrayType>(t)) { Agg* g = new Agg; u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) g->v.push_back(loadT(S, p.e ? ofE(mkAdd(p.e, mkC(i * es, 64))) : Val(p.c + i * es), at->getElementType())); Val r; r.a = g; return r; }
  return load(S, p, bytesOf(t), bitsOf(t));
}
static void storeT(State& S, const Val& p, const Val& v, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeT(S, Val(concretize(S, p, 64) + sl->getElementOffset(i)), v.a ? v.a->v[i] : Val(0), st->getElementType(i)); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) storeT(S, Val(concretize(S, p, 64) + i * es), v.a ? v.a->v[i] : Val(0), at->getElementType()); return; }
  store(S, p, v, bytesOf(t), bitsOf(t));
}
static inline bool icmpC(u32 p, u64 x, u64 y, u32 w) {
  switch (p) { case CmpInst::ICMP_EQ: return x == y; case CmpInst::ICMP_NE: return x != y; case CmpInst::ICMP_UGT: return x > y; case CmpInst::ICMP_UGE: return x >= y; case CmpInst::ICMP_ULT: return x < y; case CmpInst::ICMP_ULE: return x <= y;
    case CmpInst::ICMP_SGT: return sx(x, w) > sx(y, w); case CmpInst::ICMP_SGE: return sx(x, w) >= sx(y, w); case CmpInst::ICMP_SLT: return sx(x, w) < sx(y, w); default: return sx(x, w) <= sx(y, w); } }
static E icmpE(u32 p, E x, E y) {
  switch (p) { case CmpInst::ICMP_EQ: return mkEq(x, y); case CmpInst::ICMP_NE: return mkNot(mkEq(x, y)); case CmpInst::ICMP_UGT: return mkUlt(y, x); case CmpInst::ICMP_UGE: return mkUle(y, x); case CmpInst::ICMP_ULT: return mkUlt(x, y); case CmpInst::ICMP_ULE: return mkUle(x, y);
    case CmpInst::ICMP_SGT: return mkSlt(y, x); case CmpInst::ICMP_SGE: return mkSle(y, x); case CmpInst::ICMP_SLT: return mkSlt(x, y); default: return mkSle(x, y); } }

static void step(State& S) {
  Frame& F = topF(S); const Ins& n = F.f->code[F.pc]; insHit[n.iid] = 1;
  auto bin = [&](auto cf, auto ef) { const Val &x = get(F, n.ops[0]), &y = get(F, n.ops[1]); if (!x.e && !y.e && n.w <= 64) F.r[n.dst] = Val(cf(x.c, y.c) & mask(n.w)); else F.r[n.dst] = ofE(ef(toE(x, n.w), toE(y, n.w))); F.pc++; };
  switch (n.op) {
    case Instruction::Br:
      if (n.ops.empty()) { moves(F, n.p0); F.pc = n.t0; return; }
      else { const Val& c = get(F, n.ops[0]); bool b = c.e ? decide(S, c.e) : (c.c & 1); Frame& G = topF(S); if (b) { moves(G, n.p0); G.pc = n.t0; } else { moves(G, n.p1); G.pc = n.t1; } return; }
    case Instruction::Switch: {
      Val c = get(F, n.ops[0]); u32 k = 0;
      if (!c.e) { for (auto& p : n.cases) if (p.first == c.c) { k = p.second; break; } }
      else { // group by successor
        std::vector<E> cond(n.succ.size(), mkC(0, 1)); E any = mkC(0, 1); for (auto& p : n.cases) { E q = mkEq(c.e, mkC(p.first, n.w2)); cond[p.second] = mkOr(cond[p.second], q); any = mkOr(any, q); } cond[0] = mkOr(cond[0], mkNot(any));
        u64 v = (u64)S.me->ev.ev(c.e); for (auto& p : n.cases) if (p.first == v) { k = p.second; break; }
        for (u32 i = 0; i < cond.size(); i++) if (i != k && !isC(cond[i], 0)) { std::shared_ptr<ModelEval> m; int r = query(S, cond[i], &m); if (r == 1) pushFork(S, cond[i], m); else if (r < 0) { truncated = true; truncReason = "solver unknown"; } }
        addPC(S, cond[k]); }
      Frame& G = topF(S); moves(G, n.succ[k].second); G.pc = n.succ[k].first; return; }
    case Instruction::Ret: {
      Val r; if (!n.ops.empty()) r = get(F, n.ops[0]); bool disc = F.discard;
      popFrame(S); if (S.th[S.cur].st.empty()) { if (S.cur == 0) throw PathEnd{0}; fatal("thread function returned"); }
      if (disc) return; finishCall(S, r, true); return; }
    case Instruction::Unreachable: err(S, "unreachable", "unreachable", "unreachable instruction executed");
    case Instruction::Alloca: { u64 cnt = concretize(S, get(F, n.ops[0]), 64); Obj* o = newObj(S, n.imm * cnt, O_STACK, n.I->getName().str().c_str()); Frame& G = topF(S); G.r[n.dst] = Val(o->base); G.allocas.push_back(o->base); G.pc++; return; }
    case Instruction::Load: { Val v = n.ty->isAggregateType() ? loadT(S, get(F, n.ops[0]), n.ty) : load(S, get(F, n.ops[0]), n.imm, n.w); Frame& G = topF(S); G.r[n.dst] = v; G.pc++; return; }
    case Instruction::Store: { if (n.ty->isAggregateType()) storeT(S, get(F, n.ops[1]), get(F, n.ops[0]), n.ty); else store(S, get(F, n.ops[1]), get(F, n.ops[0]), n.imm, n.w2); topF(S).pc++; return; }
    case Instruction::GetElementPtr: {
      const Val& b = get(F, n.ops[0]); bool sym = b.e; u64 c = b.c + n.imm; for (auto& g : n.gep) { const Val& v = get(F, g.first); if (v.e) sym = true; else c += (u64)sx(v.c, g.second.second) * g.second.first; }
      if (!sym) F.r[n.dst] = Val(c);
      else { E e = toE(b, 64); e = mkAdd(e, mkC(n.imm, 64)); for (auto& g : n.gep) { const Val& v = get(F, g.first); E ix = mkSExt(toE(v, g.second.second), 64); e = mkAdd(e, mkMul(ix, mkC(g.second.first, 64))); } F.r[n.dst] = ofE(e); }
      F.pc++; return; }
    case Instruction::Call: case Instruction::Invoke: doCall(S, F, n); return;
    case Instruction::Resume: { Val v = get(F, n.ops[0]); u64 ex = v.a ? v.a->v[0].c : 0; popFrame(S); if (S.th[S.cur].st.empty()) err(S, "uncaught-exception", "resume", "exception left the thread function"); unwind(S, ex); return; }
    case Instruction::ExtractValue: F.r[n.dst] = aggGet(get(F, n.ops[0]), n.idx); F.pc++; return;
    case Instruction::InsertValue: F.r[n.dst] = aggSet(get(F, n.ops[0]), get(F, n.ops[1]), n.idx, 0, n.ty); F.pc++; return;
    case Instruction::ICmp: { const Val &x = get(F, n.ops[0]), &y = get(F, n.ops[1]); if (!x.e && !y.e) F.r[n.dst] = Val(icmpC(n.pred, x.c, y.c, n.w2)); else F.r[n.dst] = ofE(icmpE(n.pred, toE(x, n.w2), toE(y, n.w2))); F.pc++; return; }
    case Instruction::Select: { const Val& c = get(F, n.ops[0]); if (!c.e) F.r[n.dst] = get(F, n.ops[(c.c & 1) ? 1 : 2]); else { const Val &x = get(F, n.ops[1]), &y = get(F, n.ops[2]); if (x.a || y.a) { bool b = decide(S, c.e); Frame& G = topF(S); G.r[n.dst] = get(G, n.ops[b ? 1 : 2]); G.pc++; return; } 
        if (n.ty->isPointerTy() && !(x.e || y.e) && findObj(S, x.c) != findObj(S, y.c)) { bool b = decide(S, c.e); Frame& G = topF(S); G.r[n.dst] = get(G, n.ops[b ? 1 : 2]); G.pc++; return; }
        F.r[n.dst] = ofE(mkIte(c.e, toE(x, n.w), toE(y, n.w))); } F.pc++; return; }
    case Instruction::Freeze: case Instruction::BitCast: F.r[n.dst] = get(F, n.ops[0]); F.pc++; return;
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: { const Val& x = get(F, n.ops[0]); if (!x.e && n.w <= 64) F.r[n.dst] = Val(x.c & mask(n.w)); else { E e = toE(x, n.w2); F.r[n.dst] = ofE(n.w > n.w2 ? mkZExt(e, n.w) : mkExtract(e, 0, n.w)); } F.pc++; return; }
    case Instruction::SExt: { const Val& x = get(F, n.ops[0]); if (!x.e && n.w <= 64) F.r[n.dst] = Val((u64)sx(x.c, n.w2) & mask(n.w)); else F.r[n.dst] = ofE(mkSExt(toE(x, n.w2), n.w)); F.pc++; return; }
    case Instruction::Add: bin([](u64 x, u64 y) { return x + y; }, mkAdd); return;
    case Instruction::Sub: bin([](u64 x, u64 y) { return x - y; }, mkSub); return;
    case Instruction::Mul: bin([](u64 x, u64 y) { return x * y; }, mkMul); return;
    case Instruction::And: bin([](u64 x, u64 y) { return x & y; }, mkAnd); return;
    case Instruction::Or: bin([](u64 x, u64 y) { return x | y; }, mkOr); return;
    case Instruction::Xor: bin([](u64 x, u64 y) { return x ^ y; }, mkXor); return;
    case Instruction::Shl: { u32 w = n.w; bin([w](u64 x, u64 y) { return y >= w ? 0 : x << y; }, mkShl); return; }
    case Instruction::LShr: { u32 w = n.w; bin([w](u64 x, u64 y) { return y >= w ? 0 : x >> y; }, mkLShr); return; }
    case Instruction::AShr: { u32 w = n.w; bin([w](u64 x, u64 y) { return (u64)(sx(x, w) >> (y >= w ? w - 1 : y)); }, mkAShr); return; }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      const Val& y = get(F, n.ops[1]); if (y.e) { std::shared_ptr<ModelEval> m; E z = mkEq(y.e, mkC(0, n.w)); if (query(S, z, &m) == 1) err(S, "div-by-zero", "div", "division by zero", m.get()); } else if (y.c == 0) err(S, "div-by-zero", "div", "division by zero");
      u32 w = n.w; E x = toE(get(F, n.ops[0]), w), yy = toE(y, w); F.r[n.dst] = ofE(n.op == Instruction::UDiv ? mkUDiv(x, yy) : n.op == Instruction::SDiv ? mkSDiv(x, yy) : n.op == Instruction::URem ? mkURem(x, yy) : mkSRem(x, yy)); F.pc++; return; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: { EK k = n.op == Instruction::FAdd ? E_FADD : n.op == Instruction::FSub ? E_FSUB : n.op == Instruction::FMul ? E_FMUL : E_FDIV; F.r[n.dst] = ofE(mkFP(k, n.w, toE(get(F, n.ops[0]), n.w), toE(get(F, n.ops[1]), n.w))); F.pc++; return; }
    case Instruction::FNeg: F.r[n.dst] = ofE(mkXor(toE(get(F, n.ops[0]), n.w), mkC(1ull << (n.w - 1), n.w))); F.pc++; return;
    case Instruction::FCmp: F.r[n.dst] = ofE(fcmpE(n.pred, toE(get(F, n.ops[0]), n.w2), toE(get(F, n.ops[1]), n.w2))); F.pc++; return;
    case Instruction::SIToFP: F.r[n.dst] = ofE(mkFP(E_SI2FP, n.w, toE(get(F, n.ops[0]), n.w2))); F.pc++; return;
    case Instruction::UIToFP: F.r[n.dst] = ofE(mkFP(E_UI2FP, n.w, toE(get(F, n.ops[0]), n.w2))); F.pc++; return;
    case Instruction::FPExt: F.r[n.dst] = ofE(mkFP(E_FPEXT, n.w, toE(get(F, n.ops[0]), n.w2))); F.pc++; return;
    case Instruction::FPTrunc: F.r[n.dst] = ofE(mkFP(E_FPTRUNC, n.w, toE(get(F, n.ops[0]), n.w2))); F.pc++; return;
    case Instruction::FPToSI: case Instruction::FPToUI: { E x = toE(get(F, n.ops[0]), n.w2); bool u = n.op == Instruction::FPToUI; u32 cw = 64; // convert to 64 bits as x86 does, then truncate
      E si = mkIte(mkAnd(mkFP(E_FLE, 1, dbl(-9223372036854775808.0, n.w2), x), mkFP(E_FLT, 1, x, dbl(9223372036854775808.0, n.w2))), mkFP(E_FP2SI, cw, x), mkC(1ull << 63, 64)); E res = si;
      if (u && n.w == 64) { E big = mkAnd(mkFP(E_FLE, 1, dbl(9223372036854775808.0, n.w2), x), mkFP(E_FLT, 1, x, dbl(18446744073709551616.0, n.w2))); res = mkIte(big, mkFP(E_FP2UI, 64, x), mkIte(mkFP(E_FLE, 1, dbl(18446744073709551616.0, n.w2), x), mkC(0, 64), si)); }
      F.r[n.dst] = ofE(mkExtract(res, 0, n.w)); F.pc++; return; }
    case Instruction::Fence: F.pc++; return;
    case Instruction::AtomicRMW: { Val p = get(F, n.ops[0]), x = get(F, n.ops[1]); Val old = load(S, p, n.imm, n.w); E o = toE(old, n.w), y = toE(x, n.w), v; switch (n.pred) { case AtomicRMWInst::Xchg: v = y; break; case AtomicRMWInst::Add: v = mkAdd(o, y); break; case AtomicRMWInst::Sub: v = mkSub(o, y); break; case AtomicRMWInst::And: v = mkAnd(o, y); break; case AtomicRMWInst::Or: v = mkOr(o, y); break; case AtomicRMWInst::Xor: v = mkXor(o, y); break; default: fatal("atomicrmw"); }
      store(S, p, ofE(v), n.imm, n.w); Frame& G = topF(S); G.r[n.dst] = old; G.pc++; return; }
    case Instruction::AtomicCmpXchg: { Val p = get(F, n.ops[0]); Val old = load(S, p, n.imm, n.w2); E eq = mkEq(toE(old, n.w2), toE(get(F, n.ops[1]), n.w2)); bool b = decide(S, eq); if (b) store(S, p, get(topF(S), n.ops[2]), n.imm, n.w2); Agg* g = new Agg; g->v = {old, Val(b)}; Frame& G = topF(S); G.r[n.dst] = Val(); G.r[n.dst].a = g; G.pc++; return; }
    default: fatal(std::string("unsupported instruction ") + n.I->getOpcodeName());
  }
}

static void writeOut(const char* status) {
  if (VERBOSE) { std::vector<std::pair<u64, std::string>> v; for (auto& kv : FORKAT) v.push_back({kv.second, kv.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "fork %llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
  FILE* o = OUT.empty() ? stdout : fopen(OUT.c_str(), "w"); if (!o) fatal("cannot write " + OUT); auto& st = SOLVER->st;
  u64 hit = 0, tot = 0; std::string funcs; int nf = 0; bool first = true;
  for (auto& kv : FByName) { FuncInfo* f = kv.second; if (!f->isRepo || !f->calls || kv.first != f->name) continue; nf++; for (auto& i : f->code) { tot++; if (insHit[i.iid]) hit++; } std::string d = demangle(f->name); if (d.size() > 160) { d.resize(157); d += "..."; } if (nf <= 400) { if (!first) funcs += ","; first = false; funcs += js(d); } }
  fprintf(o, "{\"status\":%s,\"truncated\":%s,\"truncReason\":%s,\"paths\":%llu,\"killed\":%llu,\"pending\":%zu,\"forks\":%llu,\"instructions\":%llu,\"asserts\":%llu,\"memchecks\":%llu,\"queries\":%llu,\"solved\":%llu,\"cacheHits\":%llu,\"modelHits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solverTime\":%.3f,\"maxQuery\":%.3f,\"wall\":%.3f,\"repoFunctions\":%d,\"repoInstrCovered\":%llu,\"repoInstrTotal\":%llu,",
    js(status).c_str(), truncated ? "true" : "false", js(truncReason).c_str(), (unsigned long long)nPaths, (unsigned long long)nKilled, WORK.size(), (unsigned long long)nForks, (unsigned long long)nInstr, (unsigned long long)nAsserts, (unsigned long long)nMemChecks, (unsigned long long)st.queries, (unsigned long long)st.solved, (unsigned long long)st.cacheHits, (unsigned long long)st.modelHits, (unsigned long long)st.sat, (unsigned long long)st.unsat, (unsigned long long)st.unknown, st.time, st.maxq, elapsed(), nf, (unsigned long long)hit, (unsigned long long)tot);
  fprintf(o, "\"functions\":[%s],\"reached\":[", funcs.c_str()); first = true; for (auto& r : reached) { fprintf(o, "%s%s", first ? "" : ",", js(r).c_str()); first = false; }
  fprintf(o, "],\"errors\":["); first = true; for (auto& e : errors) { fprintf(o, "%s{\"kind\":%s,\"id\":%s,\"msg\":%s,\"loc\":%s,\"stack\":%s,\"inputs\":%s,\"notes\":%s}", first ? "" : ",", js(e.kind).c_str(), js(e.id).c_str(), js(e.msg).c_str(), js(e.loc).c_str(), js(e.stack).c_str(), e.inputs.c_str(), js(e.obs).c_str()); first = false; }
  fprintf(o, "],\"samples\":["); for (size_t i = 0; i < sampleInputs.size(); i++) fprintf(o, "%s{\"inputs\":%s,\"observed\":%s}", i ? "," : "", sampleInputs[i].c_str(), sampleObs[i].c_str());
  fprintf(o, "]}\n"); if (!OUT.empty()) fclose(o);
}
static u64 rssMb() { FILE* f = fopen("/proc/self/statm", "r"); unsigned long long a = 0, b = 0; if (f) { if (fscanf(f, "%llu %llu", &a, &b) != 2) b = 0; fclose(f); } return b * 4096 >> 20; }

int main(int argc, char** argv) {
  T0 = std::chrono::steady_clock::now(); std::string bc, entry = "vs_main"; double solverTo = 20; std::string dump; int dumpMax = 0; u64 seed = 1;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { if (++i >= argc) fatal("missing value for " + a); return std::string(argv[i]); };
    if (a == "--param") { std::string s = nx(); size_t p = s.find('='); PARAM[s.substr(0, p)] = atoll(s.c_str() + p + 1); } else if (a == "--out") OUT = nx(); else if (a == "--time") MAX_TIME = atof(nx().c_str()); else if (a == "--steps") MAX_STEPS = atoll(nx().c_str()); else if (a == "--stub") STUBS.insert(nx()); else if (a == "--repo") REPO = nx(); else if (a == "-v") VERBOSE = true; else if (a == "--entry") entry = nx(); else if (a == "--solver-timeout") solverTo = atof(nx().c_str()); else if (a == "--dump") dump = nx(); else if (a == "--dump-max") dumpMax = atoi(nx().c_str()); else if (a == "--samples") NSAMPLES = atoi(nx().c_str()); else if (a == "--alloc-limit") ALLOC_LIMIT = atoll(nx().c_str()); else if (a == "--rss") MAX_RSS_MB = atoll(nx().c_str()); else if (a == "--seed") seed = atoll(nx().c_str()); else if (a == "--max-err") MAX_ERR = atoi(nx().c_str()); else bc = a; }
  (void)seed; SMDiagnostic D; M = parseIRFile(bc, D, Ctx); if (!M) { D.print("vsym", errs()); return 3; } DL = &M->getDataLayout(); SOLVER = new Z3Solver(); SOLVER->timeoutMs = (unsigned)(solverTo * 1000); SOLVER->dumpDir = dump; SOLVER->dumpMax = dumpMax;
  auto s0 = std::make_shared<State>(); s0->me = std::make_shared<ModelEval>(); s0->mem.push_back(std::make_shared<Chunk>()); s0->nextId = 16; // ids below 16 unused: null and small addresses are invalid
  setupGlobals(*s0); setupBuiltins(); s0->th.push_back(Thread());
  FuncInfo* mf = FByName[entry]; if (!mf || !mf->hasBody) fatal("no entry " + entry);
  // constructors, then the entry; built as a stack of frames (entry at the bottom)
  compile(mf); pushCall(*s0, mf, {}, -1);
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (unsigned i = ca->getNumOperands(); i-- > 0;) if (auto* f = dyn_cast<Function>(ca->getOperand(i)->getOperand(1))) pushCall(*s0, infoOf(f), {}, -1, true);
  WORK.push_back(s0); s0.reset(); u64 tick = 0; int nLong = 0;
  while (!WORK.empty()) {
    SP sp = WORK.back(); WORK.pop_back(); State& S = *sp;
    try {
      for (;;) { step(S); nInstr++; if (++S.steps > MAX_STEPS) { truncated = true; truncReason = "path step limit"; report(S, "step-limit", "step-limit", "path exceeded the step limit"); if (++nLong >= 3) { truncReason = "three paths over the step limit"; throw PathEnd{3}; } throw PathEnd{1}; }
        if ((++tick & 0x3fff) == 0) { if (elapsed() > MAX_TIME) { truncated = true; truncReason = "time limit"; throw PathEnd{3}; } if ((tick & 0x3ffff) == 0 && rssMb() > MAX_RSS_MB) { truncated = true; truncReason = "memory limit"; throw PathEnd{3}; } } }
    } catch (PathEnd& e) {
      if (e.how == 3) { WORK.push_back(sp); break; }
      if (e.how == 0) { nPaths++; bool take = (int)sampleInputs.size() < NSAMPLES; if (!take && (nPaths & (nPaths - 1)) == 0 && NSAMPLES) { take = true; size_t k = (nPaths * 7) % sampleInputs.size(); sampleInputs.erase(sampleInputs.begin() + k); sampleObs.erase(sampleObs.begin() + k); } if (take) { sampleInputs.push_back(inputsJson(S, S.me.get())); sampleObs.push_back(obsJson(S, S.me.get())); } }
      else if (e.how == 2) nPaths++;
    }
    if (elapsed() > MAX_TIME) { truncated = true; truncReason = "time limit"; break; }
    if (errors.size() >= 40) { truncated = true; truncReason = "too many errors"; break; }
  }
  writeOut("done"); return 0;
}
