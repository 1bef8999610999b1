// Hash-consed bit-vector / FP expression DAG, concrete evaluator and Z3 translation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <chrono>
#include <z3.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8; typedef int32_t i32; typedef uint16_t u16;
typedef unsigned __int128 u128; typedef __int128 i128;

enum EK : uint8_t {
  E_CONST, E_VAR, E_SELECT, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
  E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT, E_ITE,
  // floating point on raw bit patterns (w = 32 or 64)
  E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FEQ, E_FLT, E_FLE, E_FISNAN, E_FP2SI, E_FP2UI, E_SI2FP, E_UI2FP, E_FPEXT, E_FPTRUNC
};

struct Expr {
  EK k; u32 w; u32 id; u32 hash; u64 c;           // c: constant / var id / array id / extract low bit
  const Expr *a, *b, *d;
  mutable std::shared_ptr<std::vector<u32>> vs;   // cached variable set (arrays are variables too)
};
typedef const Expr* E;

struct VarInfo { std::string name; u32 w; bool isArray; };
inline std::vector<VarInfo>& VARS() { static std::vector<VarInfo> v; return v; }

inline u64 mask(u32 w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sx(u64 v, u32 w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); return (i64)((v ^ m) - m); }

struct ExprPool {
  std::vector<E> all;
  std::vector<std::vector<E>> dummy;
  std::vector<E> tab; size_t cnt = 0;
  ExprPool() { tab.resize(1 << 16, nullptr); }
  static u32 h(EK k, u32 w, u64 c, E a, E b, E d) {
    u64 x = k * 0x9E3779B97F4A7C15ull ^ (u64)w * 0xC2B2AE3D27D4EB4Full ^ c * 0x165667B19E3779F9ull;
    x ^= (a ? a->id + 1 : 0) * 0x27D4EB2F165667C5ull; x = (x << 13) | (x >> 51);
    x ^= (b ? b->id + 1 : 0) * 0x9E3779B185EBCA87ull; x = (x << 17) | (x >> 47);
    x ^= (d ? d->id + 1 : 0) * 0xD6E8FEB86659FD93ull;
    x ^= x >> 32; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 29; return (u32)x;
  }
  E get(EK k, u32 w, u64 c, E a = nullptr, E b = nullptr, E d = nullptr) {
    u32 hh = h(k, w, c, a, b, d); size_t m = tab.size() - 1, i = hh & m;
    while (tab[i]) { E e = tab[i];
      if (e->hash == hh && e->k == k && e->w == w && e->c == c && e->a == a && e->b == b && e->d == d) return e;
      i = (i + 1) & m; }
    Expr* e = new Expr{k, w, (u32)all.size(), hh, c, a, b, d, nullptr};
    all.push_back(e); tab[i] = e;
    if (++cnt * 2 > tab.size()) { std::vector<E> o; o.swap(tab); tab.resize(o.size() * 2, nullptr); m = tab.size() - 1;
      for (E x : o) if (x) { size_t j = x->hash & m; while (tab[j]) j = (j + 1) & m; tab[j] = x; } }
    return e;
  }
};
inline ExprPool& POOL() { static ExprPool p; return p; }

inline E mkC(u64 v, u32 w);
E mkConcat(E hi, E lo); E mkExtractMem(E a, u32 lo, u32 w); E mkNorm(E a);
E mkExtract(E a, u32 lo, u32 w);
inline E mkC(u64 v, u32 w) {
  if (w <= 64) return POOL().get(E_CONST, w, v & mask(w));
  return mkConcat(mkC(0, w - 64), mkC(v, 64));
}
inline bool isC(E e) { return e->k == E_CONST; }
inline bool isC(E e, u64 v) { return e->k == E_CONST && e->c == v; }
inline E mkVar(const std::string& n, u32 w) { VARS().push_back({n, w, false}); return POOL().get(E_VAR, w, VARS().size() - 1); }
inline u32 mkArray(const std::string& n) { VARS().push_back({n, 8, true}); return VARS().size() - 1; }
inline E mkSelect(u32 arr, E idx) { return POOL().get(E_SELECT, 8, arr, idx); }

E mkAdd(E a, E b); E mkSub(E a, E b); E mkMul(E a, E b); E mkUDiv(E a, E b); E mkSDiv(E a, E b); E mkURem(E a, E b); E mkSRem(E a, E b);
E mkAnd(E a, E b); E mkOr(E a, E b); E mkXor(E a, E b); E mkShl(E a, E b); E mkLShr(E a, E b); E mkAShr(E a, E b);
E mkEq(E a, E b); E mkUlt(E a, E b); E mkUle(E a, E b); E mkSlt(E a, E b); E mkSle(E a, E b);
E mkZExt(E a, u32 w); E mkSExt(E a, u32 w); E mkIte(E c, E t, E f);
inline E mkNot(E a) { return mkXor(a, a->w == 1 ? mkC(1, 1) : mkC(~0ull, a->w)); }
E mkFP(EK k, u32 w, E a, E b = nullptr);

const std::vector<u32>& varsOf(E e);

struct Model { std::unordered_map<u32, u64> v; std::unordered_map<u32, std::map<u64, u8>> arr; };

struct Evaluator {   // evaluates under a model; missing variables are 0
  const Model* m; std::unordered_map<u32, u128> memo;
  explicit Evaluator(const Model* mm) : m(mm) {}
  u128 ev(E e);
};

u64 concreteFP(EK k, u32 w, u32 aw, u64 a, u64 b);

struct SolverStats { u64 queries = 0, solved = 0, cacheHits = 0, modelHits = 0, sat = 0, unsat = 0, unknown = 0; double time = 0; double maxq = 0; u64 cvc5 = 0; };

struct Z3Solver {
  Z3_context ctx; std::vector<Z3_ast> memo; unsigned timeoutMs; SolverStats st;
  std::unordered_map<std::string, std::pair<int, std::shared_ptr<Model>>> cache;
  std::string dumpDir; int dumpN = 0; int dumpMax = 0;
  Z3_sort fp32, fp64; Z3_ast rne, rtz; Z3_solver inc = nullptr; 
  Z3Solver();
  Z3_ast tr(E e);                    // translation; w==1 <-> Bool
  Z3_ast trBV1(E e) { return tr(e); }
  // 1 sat, 0 unsat, -1 unknown
  int check(const std::vector<E>& cs, std::shared_ptr<Model>& out);
};
