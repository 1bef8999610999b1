#include <unistd.h>
#include "expr.h"

static inline ExprPool& P() { return POOL(); }
static inline bool commSwap(E a, E b) { return isC(a) && !isC(b) ? true : (!isC(b) && a->id > b->id && !isC(a)); }

// ---- value ranges and polynomial normal form ----
static inline bool isArith(E e) { return e->k == E_ADD || e->k == E_SUB || e->k == E_MUL; }
static std::unordered_map<u32, u64> UMAX;
static u64 umax(E e) {  // upper bound of the unsigned value (w <= 64)
  if (e->w > 64) return ~0ull;
  u64 m = mask(e->w);
  switch (e->k) {
    case E_CONST: return e->c;
    case E_ZEXT: return e->a->w > 64 ? m : umax(e->a);
    case E_ADD: case E_MUL: case E_ITE: case E_CONCAT: case E_AND: case E_EXTRACT: case E_LSHR: case E_UDIV: case E_UREM: break;
    default: return m;
  }
  auto it = UMAX.find(e->id); if (it != UMAX.end()) return it->second;
  u64 r = m;
  switch (e->k) {
    case E_ADD: { u128 t = (u128)umax(e->a) + umax(e->b); if (t <= m) r = (u64)t; break; }
    case E_MUL: { u128 t = (u128)umax(e->a) * umax(e->b); if (t <= m) r = (u64)t; break; }
    case E_ITE: r = std::max(umax(e->b), umax(e->d)); break;
    case E_CONCAT: if (e->a->w < 64 && e->b->w < 64) r = (umax(e->a) << e->b->w) | mask(e->b->w); break;
    case E_AND: r = std::min(umax(e->a), umax(e->b)); break;
    case E_EXTRACT: if (e->c == 0 && e->a->w <= 64) r = std::min(m, umax(e->a)); break;
    case E_UDIV: r = isC(e->b) && e->b->c ? umax(e->a) / e->b->c : m; break;
    case E_LSHR: r = umax(e->a); break;
    case E_UREM: r = isC(e->b) && e->b->c ? std::min(umax(e->a), e->b->c - 1) : umax(e->a); break;
    default: break;
  }
  UMAX[e->id] = r; return r;
}
typedef std::vector<E> Mono;   // product of atoms, ordered by id; empty = constant
struct MonoLess { bool operator()(const Mono& x, const Mono& y) const { if (x.size() != y.size()) return x.size() < y.size(); for (size_t i = 0; i < x.size(); i++) if (x[i]->id != y[i]->id) return x[i]->id < y[i]->id; return false; } };
struct Poly { std::map<Mono, i128, MonoLess> t; bool ok = true; };
static const size_t PMAX = 10;
static i128 sred(i128 v, u32 w) { return (i128)sx((u64)(u128)v & mask(w), w); }
// ideal integer interval of a polynomial whose coefficients are the stored integers; false: too large to say
static bool pinterval(const Poly& p, i128& lo, i128& hi) {
  lo = hi = 0; const i128 LIM = (i128)1 << 100;
  for (auto& x : p.t) { i128 v = 1; for (E a : x.first) { if (v > ((i128)1 << 62)) return false; v *= (i128)umax(a); if (v > ((i128)1 << 64)) return false; }
    i128 c = x.second < 0 ? -x.second : x.second; if (c > ((i128)1 << 62) && v > ((i128)1 << 30)) return false; if (c > ((i128)1 << 64)) return false;
    if (x.first.empty()) { lo += x.second; hi += x.second; } else if (x.second > 0) hi += x.second * v; else lo += x.second * v;
    if (lo < -LIM || hi > LIM) return false; }
  return true;
}
static std::unordered_map<u32, std::shared_ptr<Poly>> PM;
static void padd(Poly& r, const Mono& m, i128 c, u32 w) { auto& x = r.t[m]; x = sred(x + c, w); if (x == 0) r.t.erase(m); }
static const Poly& poly(E e);
static Poly pmul(const Poly& x, const Poly& y, u32 w) {
  Poly r; if (!x.ok || !y.ok || x.t.size() * y.t.size() > 16) { r.ok = false; return r; }
  for (auto& p : x.t) for (auto& q : y.t) { Mono m = p.first; m.insert(m.end(), q.first.begin(), q.first.end()); if (m.size() > 3) { r.ok = false; return r; }
    std::sort(m.begin(), m.end(), [](E a, E b) { return a->id < b->id; }); padd(r, m, (i128)sx((u64)(u128)p.second * (u64)(u128)q.second, 64), w); }
  if (r.t.size() > PMAX) r.ok = false; return r;
}
static const Poly& poly(E e) {   // modulo 2^w, coefficients signed; !ok: no useful form
  auto it = PM.find(e->id); if (it != PM.end()) return *it->second;
  auto p = std::make_shared<Poly>(); u32 w = e->w; bool atom = false;
  if (w > 64) p->ok = false;
  else switch (e->k) {
    case E_CONST: if (e->c) p->t[{}] = sred((i128)e->c, w); break;
    case E_ADD: case E_SUB: { const Poly &x = poly(e->a), &y = poly(e->b); if (!x.ok || !y.ok) { p->ok = false; break; }
      p->t = x.t; for (auto& q : y.t) padd(*p, q.first, e->k == E_ADD ? q.second : -q.second, w); if (p->t.size() > PMAX) p->ok = false; break; }
    case E_MUL: *p = pmul(poly(e->a), poly(e->b), w); break;
    case E_ZEXT: { if (isArith(e->a) || (e->a->k == E_CONCAT && isC(e->a->b, 0))) { const Poly& x = poly(e->a); i128 lo, hi;
        if (x.ok && pinterval(x, lo, hi) && lo >= 0 && hi <= (i128)mask(e->a->w)) { p->t = x.t; break; } }
      p->t[{e->a}] = 1; if (e->a->w > 64) { p->t.clear(); atom = true; } break; }
    case E_SEXT: { const Poly& x = poly(e->a); i128 lo, hi;
        if (e->a->w > 1 && x.ok && pinterval(x, lo, hi) && lo >= -((i128)1 << (e->a->w - 1)) && hi < ((i128)1 << (e->a->w - 1))) p->t = x.t; else atom = true; break; }
    case E_CONCAT: if (isC(e->b, 0) && e->a->w <= 64 && e->b->w < 64) { const Poly& x = poly(e->a); i128 lo, hi;
        if (x.ok && (!isArith(e->a) || (pinterval(x, lo, hi) && lo >= 0 && hi <= (i128)mask(e->a->w)))) { for (auto& q : x.t) padd(*p, q.first, (i128)((u64)(u128)q.second << e->b->w), w); break; } }
      atom = true; break;
    default: atom = true;
  }
  if (atom) p->t[{e}] = 1;
  PM[e->id] = p; return *p;
}
// k*c*(x div c) + k*(x mod c) = k*x  (c constant)
static void divrem(Poly& p, u32 w) {
  for (int guard = 0; guard < 4; guard++) {
    E D = nullptr, R = nullptr; i128 k = 0;
    for (auto& m : p.t) { if (m.first.size() != 1) continue; E e = m.first[0]; if ((e->k != E_UREM && e->k != E_SREM) || !isC(e->b)) continue;
      for (auto& q : p.t) { if (q.first.size() != 1) continue; E f = q.first[0]; if (f->k != (e->k == E_UREM ? E_UDIV : E_SDIV) || f->a != e->a || f->b != e->b || f->w != e->w) continue;
        i128 c = e->k == E_UREM ? (i128)f->b->c : (i128)sx(f->b->c, f->w); if (q.second == m.second * c) { D = f; R = e; k = m.second; break; } }
      if (D) break; }
    if (!D || D->w > w) return;
    E x = D->a; // value of x in the arithmetic of p: x zero extended (atoms stand for their unsigned value)
    if (D->k == E_SDIV && D->w != w) return;
    Poly n; n.t = p.t; n.t.erase(Mono{D}); n.t.erase(Mono{R}); const Poly* px = nullptr; i128 lo, hi; const Poly& xp = poly(x);
    if (x->w == w && xp.ok) px = &xp; else if (xp.ok && pinterval(xp, lo, hi) && lo >= 0 && hi <= (i128)mask(x->w)) px = &xp;
    if (px) { for (auto& q : px->t) padd(n, q.first, k * q.second, w); } else padd(n, Mono{x}, k, w);
    p.t = n.t;
  }
}
// k*x - k*c*(x div c) = k*(x mod c): the remainder has a small range, its expansion has not
static void undivrem(Poly& p, u32 w) {
  for (int guard = 0; guard < 4; guard++) {
    bool did = false;
    for (auto& m : p.t) { if (m.first.size() != 1) continue; E D = m.first[0]; if ((D->k != E_UDIV && D->k != E_SDIV) || !isC(D->b) || D->w != w) continue;
      i128 c = D->k == E_UDIV ? (i128)D->b->c : (i128)sx(D->b->c, w); if (c <= 1 || m.second % c) continue; i128 k = -(m.second / c); const Poly& xp = poly(D->a); if (!xp.ok) continue;
      Poly n; n.t = p.t; n.t.erase(Mono{D}); for (auto& q : xp.t) padd(n, q.first, -(k * q.second), w); if (n.t.size() + xp.t.size() != p.t.size() - 1) continue;
      E r = D->k == E_UDIV ? mkURem(D->a, D->b) : mkSRem(D->a, D->b); const Poly& rp = poly(r); if (!rp.ok) continue; for (auto& q : rp.t) padd(n, q.first, k * q.second, w); p.t = n.t; did = true; break; }
    if (!did) return; }
}
static E rawAdd(E a, E b) { u32 w = a->w; if (isC(a) && isC(b)) return mkC(a->c + b->c, w); if (isC(a)) std::swap(a, b); if (isC(b, 0)) return a; return P().get(E_ADD, w, 0, a, b); }
static E rawMul(E a, E b) { u32 w = a->w; if (isC(a) && isC(b)) return mkC(a->c * b->c, w); if (isC(a)) std::swap(a, b); if (isC(b, 1)) return a; if (isC(b, 0)) return b; return P().get(E_MUL, w, 0, a, b); }
static E fit(E a, u32 w) { return a->w == w ? a : a->w < w ? mkZExt(a, w) : mkExtract(a, 0, w); }
static E monoE(const Mono& m, i128 c, u32 w) { E r = nullptr; for (E a : m) { E x = fit(a, w); r = r ? rawMul(r, x) : x; } return r ? rawMul(r, mkC((u64)(u128)c, w)) : mkC((u64)(u128)c, w); }
static E build(const Poly& p, u32 w) {
  E pos = nullptr, neg = nullptr, k = nullptr;
  for (auto& x : p.t) { if (x.first.empty()) { k = mkC((u64)(u128)x.second, w); continue; }
    if (x.second > 0) { E m = monoE(x.first, x.second, w); pos = pos ? rawAdd(pos, m) : m; } else { E m = monoE(x.first, -x.second, w); neg = neg ? rawAdd(neg, m) : m; } }
  E r = pos; if (neg) r = P().get(E_SUB, w, 0, pos ? pos : mkC(0, w), neg);
  return !r ? (k ? k : mkC(0, w)) : k ? rawAdd(r, k) : r;
}
static bool polyWorth(E a) { return isArith(a) || (a->k == E_ZEXT && (isArith(a->a) || (a->a->k == E_CONCAT && isC(a->a->b, 0)))) || (a->k == E_SEXT && isArith(a->a)) || (a->k == E_CONCAT && isC(a->b, 0)); }
static E polyOp(EK k, E a, E b) {   // nullptr: no normal form
  u32 w = a->w; if (w > 64 || w < 9) return nullptr;
  if (!polyWorth(a) && !polyWorth(b)) return nullptr;
  const Poly &x = poly(a), &y = poly(b); if (!x.ok || !y.ok) return nullptr;
  Poly r;
  if (k == E_MUL) r = pmul(x, y, w);
  else { r.t = x.t; for (auto& q : y.t) padd(r, q.first, k == E_ADD ? q.second : -q.second, w); if (r.t.size() > PMAX) r.ok = false; }
  if (!r.ok) return nullptr;
  if (k != E_MUL) { divrem(r, w); undivrem(r, w); }
  return build(r, w);
}
// comparisons of values with known ranges: decide, or emit a canonical form. op: 0 a<b, 1 a<=b, 2 a==b
static bool noPoly = false;
struct NoPoly { bool o; NoPoly() : o(noPoly) { noPoly = true; } ~NoPoly() { noPoly = o; } };
static E polyCmp(int op, bool sgn, E a, E b) {
  u32 w = a->w; if (w > 64 || w < 9 || noPoly) return nullptr;
  if (!polyWorth(a) && !polyWorth(b)) return nullptr;
  const Poly &x = poly(a), &y = poly(b); if (!x.ok || !y.ok) return nullptr;
  Poly d; i128 lo, hi; i128 L = sgn ? -((i128)1 << (w - 1)) : 0, H = sgn ? ((i128)1 << (w - 1)) : ((i128)1 << w);
  auto within = [&](const Poly& p, i128 l, i128 h) { return pinterval(p, lo, hi) && lo >= l && hi < h; };
  Poly xx = x, yy = y;
  if (!sgn) { // constants of an unsigned comparison are non-negative
    if (isC(a)) { xx.t.clear(); if (a->c) xx.t[{}] = a->c; } if (isC(b)) { yy.t.clear(); if (b->c) yy.t[{}] = b->c; } }
  if (op == 2) { i128 L2 = -((i128)1 << (w - 1)), H2 = ((i128)1 << (w - 1)); bool u = within(xx, 0, (i128)1 << w) && within(yy, 0, (i128)1 << w), s = within(x, L2, H2) && within(y, L2, H2); if (!u && !s) return nullptr; if (!u) { xx = x; yy = y; } }
  else if (!within(xx, L, H) || !within(yy, L, H)) return nullptr;
  d.t = yy.t; for (auto& q : xx.t) { auto& c = d.t[q.first]; c -= q.second; if (c == 0) d.t.erase(q.first); }
  if (op == 0) { auto& c = d.t[{}]; c -= 1; if (c == 0) d.t.erase(Mono{}); }
  if (!pinterval(d, lo, hi)) return nullptr;
  if (op == 2) { if (lo > 0 || hi < 0) return mkC(0, 1); if (d.t.empty()) return mkC(1, 1); }
  else { if (lo >= 0) return mkC(1, 1); if (hi < 0) return mkC(0, 1); }
  u64 g = 0; i128 k = 0; for (auto& q : d.t) { if (q.first.empty()) { k = q.second; continue; } i128 c = q.second < 0 ? -q.second : q.second; u64 p = (u64)c, r = g; while (r) { u64 t = p % r; p = r; r = t; } g = p; }
  if (g == 0) return nullptr;
  if (g > 1) { if (op == 2 && k % (i128)g) return mkC(0, 1); i128 q = k / (i128)g; if (k % (i128)g < 0) q--; k = q; d.t.erase(Mono{}); for (auto& t : d.t) t.second /= (i128)g; if (k) d.t[{}] = k; }
  Poly pos, neg; bool first = true, flip = false;
  for (auto& q : d.t) { if (op == 2 && !q.first.empty() && first) { first = false; flip = q.second < 0; } }
  for (auto& q : d.t) { i128 c = flip ? -q.second : q.second; if (c > 0) pos.t[q.first] = c; else neg.t[q.first] = -c; }
  i128 ph, nh; if (!pinterval(pos, lo, ph) || !pinterval(neg, lo, nh)) return nullptr; i128 m = std::max(ph, nh); u32 W = 1; while (W < 64 && (m >> W)) W++; if (m >> W) return nullptr;
  E pe = build(pos, W), ne = build(neg, W);
  NoPoly guard;
  if (op == 2) { if (isC(ne)) { if (isArith(pe)) return P().get(E_EQ, 1, 0, pe, ne); return mkEq(pe, ne); } if (isC(pe)) { if (isArith(ne)) return P().get(E_EQ, 1, 0, ne, pe); return mkEq(ne, pe); } if (ne->id < pe->id) std::swap(pe, ne); return P().get(E_EQ, 1, 0, pe, ne); }
  if (isC(pe)) { if (!isArith(ne)) return mkUle(ne, pe); } else if (isC(ne)) { if (!isArith(pe)) return mkUle(ne, pe); }
  if (isC(pe, mask(W))) return mkC(1, 1);
  if (W == 1) return mkOr(mkNot(ne), pe);
  return P().get(E_ULE, 1, 0, ne, pe);
}

E mkAdd(E a, E b) {
  u32 w = a->w;
  if (!isC(b, 0) && !(isC(a) && isC(b))) if (E r = polyOp(E_ADD, a, b)) return r;
  if (isC(a) && isC(b)) return mkC(a->c + b->c, w);
  if (w > 64) return P().get(E_ADD, w, 0, a, b);
  if (w == 1) return mkXor(a, b);
  if (isC(a)) std::swap(a, b);
  if (isC(b, 0)) return a;
  if (isC(b) && a->k == E_ADD && isC(a->b)) return mkAdd(a->a, mkC(a->b->c + b->c, w));
  if (!isC(b)) {
    // pull constants outwards so syntactic offset comparison works
    if (a->k == E_ADD && isC(a->b)) return mkAdd(mkAdd(a->a, b), a->b);
    if (b->k == E_ADD && isC(b->b)) return mkAdd(mkAdd(a, b->a), b->b);
    // (x - y) + y = x
    if (a->k == E_SUB && a->b == b) return a->a;
    if (b->k == E_SUB && b->b == a) return b->a;
    if (a->id > b->id) std::swap(a, b);
  }
  return P().get(E_ADD, w, 0, a, b);
}
E mkSub(E a, E b) {
  u32 w = a->w;
  if (a != b && !isC(b, 0)) if (E r = polyOp(E_SUB, a, b)) return r;
  if (w <= 64) {
    if (isC(a) && isC(b)) return mkC(a->c - b->c, w);
    if (a == b) return mkC(0, w);
    if (w == 1) return mkXor(a, b);
    if (isC(b)) return mkAdd(a, mkC(0 - b->c, w));
    if (a->k == E_ADD) {
      if (a->a == b) return a->b;
      if (a->b == b) return a->a;
      if (isC(a->b)) return mkAdd(mkSub(a->a, b), a->b);
    }
    if (b->k == E_ADD && isC(b->b)) return mkAdd(mkSub(a, b->a), mkC(0 - b->b->c, w));
    if (b->k == E_SUB && b->a == a) return b->b;
    if (b->k == E_ADD && b->a == a) return mkSub(mkC(0, w), b->b);
    if (b->k == E_ADD && b->b == a) return mkSub(mkC(0, w), b->a);
  }
  return P().get(E_SUB, w, 0, a, b);
}
E mkMul(E a, E b) {
  u32 w = a->w;
  if (w <= 64) {
    if (isC(a) && isC(b)) return mkC(a->c * b->c, w);
    if (!isC(a, 0) && !isC(b, 0) && !isC(a, 1) && !isC(b, 1) && a->k != E_ITE && b->k != E_ITE) if (E r = polyOp(E_MUL, a, b)) return r;
    if (isC(a)) std::swap(a, b);
    if (isC(b, 0)) return b;
    if (isC(b, 1)) return a;
    if (isC(b) && a->k == E_MUL && isC(a->b)) return mkMul(a->a, mkC(a->b->c * b->c, w));
    if (isC(b) && a->k == E_ADD && isC(a->b)) return mkAdd(mkMul(a->a, b), mkC(a->b->c * b->c, w));
    if (isC(b) && a->k == E_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkMul(a->b, b), mkMul(a->d, b));
    if (!isC(b) && a->id > b->id) std::swap(a, b);
  }
  return P().get(E_MUL, w, 0, a, b);
}
// x = c*A + B, all terms positive, no overflow, A not zero: x div c = A + B div c
static bool splitDiv(E a, u64 c, E& A, E& B) {
  if (a->w > 64 || c > (1ull << 62) || !polyWorth(a)) return false; const Poly& x = poly(a); if (!x.ok) return false; i128 lo, hi; if (!pinterval(x, lo, hi) || hi > (i128)mask(a->w)) return false;
  Poly pa, pb; for (auto& t : x.t) { if (t.second < 0) return false; i128 q = t.second / (i128)c, r = t.second % (i128)c; if (t.first.empty() || r == 0) { if (q) pa.t[t.first] = q; if (r) pb.t[t.first] = r; } else pb.t[t.first] = t.second; }
  if (pa.t.empty()) return false; A = build(pa, a->w); B = build(pb, a->w); return true;
}
#define DIVOP(NAME, KIND, EXPR) \
E NAME(E a, E b) { u32 w = a->w; \
  if ((KIND == E_SDIV || KIND == E_SREM) && w > 1 && w <= 64 && isC(b) && knownNonNeg(a) && knownNonNeg(b)) return KIND == E_SDIV ? mkUDiv(a, b) : mkURem(a, b); \
  if (w <= 64 && isC(b) && b->c != 0) { \
    if (isC(b, 1)) { if (KIND == E_UDIV || KIND == E_SDIV) return a; return mkC(0, w); } \
    if (isC(a)) { u64 x = a->c, y = b->c; i64 X = sx(x, w), Y = sx(y, w); (void)x; (void)y; (void)X; (void)Y; \
      if ((KIND == E_SDIV || KIND == E_SREM) && Y == -1) return KIND == E_SDIV ? mkC(0 - x, w) : mkC(0, w); \
      return mkC((u64)(EXPR), w); } \
    if ((KIND == E_UDIV || KIND == E_UREM) && (b->c & (b->c - 1)) == 0) { u32 s = __builtin_ctzll(b->c); \
      return KIND == E_UDIV ? mkLShr(a, mkC(s, w)) : mkAnd(a, mkC(b->c - 1, w)); } \
    if ((KIND == E_UDIV || KIND == E_UREM) && w >= 9 && umax(a) < b->c) return KIND == E_UDIV ? mkC(0, w) : a; \
    if ((KIND == E_UDIV || KIND == E_UREM) && w >= 9) { E A, B; if (splitDiv(a, b->c, A, B)) return KIND == E_UDIV ? mkAdd(A, mkUDiv(B, b)) : mkURem(B, b); } } \
  return P().get(KIND, w, 0, a, b); }
static bool knownNonNeg(E e);
DIVOP(mkUDiv, E_UDIV, x / y)
E mkURem(E a, E b);
DIVOP(mkSDiv, E_SDIV, X / Y)
DIVOP(mkURem, E_UREM, x % y)
DIVOP(mkSRem, E_SREM, X % Y)

E mkAnd(E a, E b) {
  u32 w = a->w; if (a == b) return a;
  if (w <= 64) {
    if (isC(a) && isC(b)) return mkC(a->c & b->c, w);
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
      if (b->c == 0) return b;
      if (b->c == mask(w)) return a;
      // low mask -> zext(extract)
      u64 m = b->c;
      if ((m & (m + 1)) == 0) { u32 n = __builtin_popcountll(m); return mkZExt(mkExtract(a, 0, n), w); }
      if (a->k == E_AND && isC(a->b)) return mkAnd(a->a, mkC(a->b->c & m, w));
      // single-run mask: concat pieces
      u32 lo = __builtin_ctzll(m); u64 mm = m >> lo;
      if ((mm & (mm + 1)) == 0) { u32 n = __builtin_popcountll(mm);
        return mkZExt(mkConcat(mkExtract(a, lo, n), mkC(0, lo)), w); }
    } else if (a->id > b->id) std::swap(a, b);
    if (w == 1) { // x & !x
      if (a->k == E_XOR && a->a == b && isC(a->b, 1)) return mkC(0, 1);
      if (b->k == E_XOR && b->a == a && isC(b->b, 1)) return mkC(0, 1);
    }
  }
  return P().get(E_AND, w, 0, a, b);
}
// is e a zero-extended / shifted value whose bits [lo,hi) alone may be non-zero
static void span(E e, u32& lo, u32& hi) {
  lo = 0; hi = e->w;
  if (e->k == E_ZEXT) { span(e->a, lo, hi); }
  else if (e->k == E_CONCAT && isC(e->b, 0)) { span(e->a, lo, hi); lo += e->b->w; hi += e->b->w; }
  else if (e->k == E_CONCAT) { u32 l1, h1, l2, h2, lw = e->b->w; span(e->a, l1, h1); span(e->b, l2, h2); if (h1 == 0) { lo = l2; hi = h2; } else { lo = h2 ? l2 : l1 + lw; hi = h1 + lw; } }
  else if (e->k == E_CONST) { if (!e->c) { lo = hi = 0; } else { lo = __builtin_ctzll(e->c); hi = 64 - __builtin_clzll(e->c); } }
  else if (e->k == E_OR && e->w > 1) { u32 l1, h1, l2, h2; span(e->a, l1, h1); span(e->b, l2, h2); lo = std::min(l1, l2); hi = std::max(h1, h2); }
}
E mkOr(E a, E b) {
  u32 w = a->w; if (a == b) return a;
  if (w <= 64) {
    if (isC(a) && isC(b)) return mkC(a->c | b->c, w);
    if (isC(a)) std::swap(a, b);
    if (isC(b)) { if (b->c == 0) return a; if (b->c == mask(w)) return b; }
    if (w == 1) {
      if (a->k == E_XOR && a->a == b && isC(a->b, 1)) return mkC(1, 1);
      if (b->k == E_XOR && b->a == a && isC(b->b, 1)) return mkC(1, 1);
    } else {
      // byte assembly: disjoint spans -> concat
      u32 l1, h1, l2, h2; span(a, l1, h1); span(b, l2, h2);
      if (h1 <= l2 || h2 <= l1) {
        if (h2 <= l1) { std::swap(a, b); std::swap(l1, l2); std::swap(h1, h2); }
        // a is low [l1,h1), b is high [l2,h2)
        E lo = mkExtract(a, 0, l2), hi = mkExtract(b, l2, w - l2);
        return mkConcat(hi, lo);
      }
    }
    if (!isC(b) && a->id > b->id) std::swap(a, b);
  }
  return P().get(E_OR, w, 0, a, b);
}
E mkXor(E a, E b) {
  u32 w = a->w; if (a == b) return mkC(0, w);
  if (w <= 64) {
    if (isC(a) && isC(b)) return mkC(a->c ^ b->c, w);
    if (isC(a)) std::swap(a, b);
    if (isC(b, 0)) return a;
    if (isC(b) && a->k == E_XOR && isC(a->b)) return mkXor(a->a, mkC(a->b->c ^ b->c, w));
    if (w == 1 && isC(b, 1)) {
      if (a->k == E_ULT) return mkUle(a->b, a->a);
      if (a->k == E_ULE) return mkUlt(a->b, a->a);
      if (a->k == E_SLT) return mkSle(a->b, a->a);
      if (a->k == E_SLE) return mkSlt(a->b, a->a);
    }
    if (!isC(b) && a->id > b->id) std::swap(a, b);
  }
  return P().get(E_XOR, w, 0, a, b);
}
E mkShl(E a, E b) {
  u32 w = a->w;
  if (isC(b) && w <= 64) {
    if (b->c == 0) return a;
    if (b->c >= w) return mkC(0, w);
    if (isC(a)) return mkC(a->c << b->c, w);
    return mkConcat(mkExtract(a, 0, w - b->c), mkC(0, b->c));
  }
  return P().get(E_SHL, w, 0, a, b);
}
E mkLShr(E a, E b) {
  u32 w = a->w;
  if (isC(b) && w <= 64) {
    if (b->c == 0) return a;
    if (b->c >= w) return mkC(0, w);
    if (isC(a)) return mkC(a->c >> b->c, w);
    return mkZExt(mkExtract(a, b->c, w - b->c), w);
  }
  return P().get(E_LSHR, w, 0, a, b);
}
E mkAShr(E a, E b) {
  u32 w = a->w;
  if (isC(b) && w <= 64) {
    if (b->c == 0) return a;
    u64 s = b->c >= w ? w - 1 : b->c;
    if (isC(a)) return mkC((u64)(sx(a->c, w) >> s), w);
    return mkSExt(mkExtract(a, s, w - s), w);
  }
  return P().get(E_ASHR, w, 0, a, b);
}
E mkEq(E a, E b) {
  if (a == b) return mkC(1, 1);
  if (isC(a) && isC(b)) return mkC(a->c == b->c, 1);
  if (isC(a)) std::swap(a, b);
  u32 w = a->w;
  if (w == 1) { if (isC(b)) return b->c ? a : mkNot(a); }
  if (E r = polyCmp(2, false, a, b)) return r;
  if (isC(b)) {
    if (a->k == E_ZEXT) { if (b->c & ~mask(a->a->w)) return mkC(0, 1); return mkEq(a->a, mkC(b->c, a->a->w)); }
    if (a->k == E_SEXT) { if ((u64)sx(b->c & mask(a->a->w), a->a->w) % 1 != 0) {} u64 low = b->c & mask(a->a->w);
      if (((u64)sx(low, a->a->w) & mask(w)) != b->c) return mkC(0, 1); return mkEq(a->a, mkC(low, a->a->w)); }
    if (a->k == E_ADD && isC(a->b)) return mkEq(a->a, mkC(b->c - a->b->c, w));
    if (a->k == E_SUB && isC(b, 0)) return mkEq(a->a, a->b);
    if (a->k == E_XOR && isC(a->b)) return mkEq(a->a, mkC(b->c ^ a->b->c, w));
    if (a->k == E_XOR && isC(b, 0)) return mkEq(a->a, a->b);
    if (a->k == E_OR && isC(b, 0)) return mkAnd(mkEq(a->a, b), mkEq(a->b, b));
    if (a->k == E_CONCAT && w <= 64) {
      E h = mkEq(a->a, mkC(b->c >> a->b->w, a->a->w)), l = mkEq(a->b, mkC(b->c, a->b->w)); return mkAnd(h, l); }
    if (a->k == E_ITE && isC(a->b) && isC(a->d)) {
      bool t = a->b->c == b->c, f = a->d->c == b->c;
      if (t && f) return mkC(1, 1); if (!t && !f) return mkC(0, 1); return t ? a->a : mkNot(a->a); }
    if (a->k == E_ITE && isC(a->b)) { if (a->b->c == b->c) return mkOr(a->a, mkEq(a->d, b)); return mkAnd(mkNot(a->a), mkEq(a->d, b)); }
    if (a->k == E_ITE && isC(a->d)) { if (a->d->c == b->c) return mkOr(mkNot(a->a), mkEq(a->b, b)); return mkAnd(a->a, mkEq(a->b, b)); }
  } else {
    if (a->k == E_ZEXT && b->k == E_ZEXT) { u32 m = std::max(a->a->w, b->a->w); return mkEq(mkZExt(a->a, m), mkZExt(b->a, m)); }
    if (a->k == E_SEXT && b->k == E_SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->k == E_CONCAT && b->k == E_CONCAT && a->b->w == b->b->w) return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
    if (a->k == E_ADD && b->k == E_ADD) {
      if (a->a == b->a) return mkEq(a->b, b->b); if (a->b == b->b) return mkEq(a->a, b->a);
      if (a->a == b->b) return mkEq(a->b, b->a); if (a->b == b->a) return mkEq(a->a, b->b); }
    if (a->id > b->id) std::swap(a, b);
  }
  return P().get(E_EQ, 1, 0, a, b);
}
// comparisons of a quotient by a constant with a constant, without the division
static E divCmp(E a, E b, bool sgn) {
  u32 w = a->w; E q = isC(a) ? b : isC(b) ? a : nullptr; if (!q || w > 64 || w < 9 || q->k != (sgn ? E_SDIV : E_UDIV) || !isC(q->b) || isC(q->a)) return nullptr;
  bool less = q == a; typedef __int128 W; W C = sgn ? (W)sx(q->b->c, w) : (W)q->b->c, k = less ? (sgn ? (W)sx(b->c, w) : (W)b->c) : (sgn ? (W)sx(a->c, w) : (W)a->c); if (C <= 1) return nullptr;
  W mx = sgn ? (W)(mask(w) >> 1) : (W)mask(w), mn = sgn ? -mx - 1 : 0; auto lt = [&](E x, E y) { return sgn ? mkSlt(x, y) : mkUlt(x, y); };
  auto above = [&](W v) -> E { if (v > mx) return mkC(0, 1); if (v <= mn) return mkC(1, 1); return lt(mkC((u64)(v - 1) & mask(w), w), q->a); }; // q->a >= v
  // quotient >= m, for a constant m: positive m needs x >= m*C, otherwise x > (m-1)*C
  auto ge = [&](W m) -> E { return above(m > 0 ? m * C : (m - 1) * C + 1); };
  if (less) return k <= mn ? mkC(0, 1) : mkNot(ge(k)); return ge(k + 1);
}
E mkUlt(E a, E b) {
  if (a == b) return mkC(0, 1);
  if (isC(a) && isC(b)) return mkC(a->c < b->c, 1);
  u32 w = a->w;
  if (E r = divCmp(a, b, false)) return r;
  if (E r = polyCmp(0, false, a, b)) return r;
  if (w == 1) return mkAnd(mkNot(a), b);
  if (w <= 64) {
    if (isC(b, 0)) return mkC(0, 1);
    if (isC(a) && a->c == mask(w)) return mkC(0, 1);
    if (isC(a) && umax(b) <= a->c) return mkC(0, 1);
    if (isC(b) && umax(a) < b->c) return mkC(1, 1);
    if (isC(b, 1)) return mkEq(a, mkC(0, w));
    if (isC(a, 0)) return mkNot(mkEq(b, a));
    if (a->k == E_ZEXT && isC(b)) { if (b->c > mask(a->a->w)) return mkC(1, 1); return mkUlt(a->a, mkC(b->c, a->a->w)); }
    if (b->k == E_ZEXT && isC(a)) { if (a->c >= mask(b->a->w)) return mkC(0, 1); return mkUlt(mkC(a->c, b->a->w), b->a); }
    if (a->k == E_ZEXT && b->k == E_ZEXT) { u32 m = std::max(a->a->w, b->a->w); return mkUlt(mkZExt(a->a, m), mkZExt(b->a, m)); }
  }
  return P().get(E_ULT, 1, 0, a, b);
}
E mkUle(E a, E b) {
  if (a == b) return mkC(1, 1);
  if (isC(a) && isC(b)) return mkC(a->c <= b->c, 1);
  u32 w = a->w;
  if (E r = polyCmp(1, false, a, b)) return r;
  if (w == 1) return mkOr(mkNot(a), b);
  if (w <= 64) {
    if (isC(a, 0)) return mkC(1, 1);
    if (isC(b) && b->c == mask(w)) return mkC(1, 1);
    if (isC(b, 0)) return mkEq(a, b);
    if (isC(b)) return mkUlt(a, mkC(b->c + 1, w));
    if (isC(a)) return mkUlt(mkC(a->c - 1, w), b);
    if (a->k == E_ZEXT && b->k == E_ZEXT) { u32 m = std::max(a->a->w, b->a->w); return mkUle(mkZExt(a->a, m), mkZExt(b->a, m)); }
  }
  return P().get(E_ULE, 1, 0, a, b);
}
static bool knownNonNeg(E e) {
  if (isC(e)) return !((e->c >> (e->w - 1)) & 1);
  if (e->k == E_ZEXT) return true;
  if (e->k == E_CONCAT) return knownNonNeg(e->a);
  return e->w > 1 && e->w <= 64 && !(umax(e) >> (e->w - 1));
}
E mkSlt(E a, E b) {
  if (a == b) return mkC(0, 1);
  u32 w = a->w;
  if (w <= 64) {
    if (isC(a) && isC(b)) return mkC(sx(a->c, w) < sx(b->c, w), 1);
    if (E r = divCmp(a, b, true)) return r;
    if (E r = polyCmp(0, true, a, b)) return r;
    if (w > 1 && knownNonNeg(a) && knownNonNeg(b)) return mkUlt(a, b);
    if (isC(b, 0) && knownNonNeg(a)) return mkC(0, 1);
    if (a->k == E_SEXT && b->k == E_SEXT && a->a->w == b->a->w) return mkSlt(a->a, b->a);
    if (a->k == E_SEXT && isC(b)) { u32 n = a->a->w; i64 v = sx(b->c, w), mx = (i64)(mask(n) >> 1), mn = -mx - 1;
      if (v > mx) return mkC(1, 1); if (v <= mn) return mkC(0, 1); return mkSlt(a->a, mkC((u64)v, n)); }
    if (b->k == E_SEXT && isC(a)) { u32 n = b->a->w; i64 v = sx(a->c, w), mx = (i64)(mask(n) >> 1), mn = -mx - 1;
      if (v < mn) return mkC(1, 1); if (v >= mx) return mkC(0, 1); return mkSlt(mkC((u64)v, n), b->a); }
    if (isC(b, 0)) return mkExtract(a, w - 1, 1);
    if (isC(a) && a->c == mask(w)) return mkNot(mkExtract(b, w - 1, 1));
  }
  return P().get(E_SLT, 1, 0, a, b);
}
E mkSle(E a, E b) {
  if (a == b) return mkC(1, 1);
  u32 w = a->w;
  if (w <= 64) {
    if (isC(a) && isC(b)) return mkC(sx(a->c, w) <= sx(b->c, w), 1);
    if (E r = polyCmp(1, true, a, b)) return r;
    if (w > 1 && knownNonNeg(a) && knownNonNeg(b)) return mkUle(a, b);
    u64 mx = mask(w) >> 1;
    if (isC(b)) { if (b->c == mx) return mkC(1, 1); return mkSlt(a, mkC(b->c + 1, w)); }
    if (isC(a)) { if (a->c == mx + 1) return mkC(1, 1); return mkSlt(mkC(a->c - 1, w), b); }
  }
  return P().get(E_SLE, 1, 0, a, b);
}
E mkExtractMem(E a, u32 lo, u32 w);
E mkConcat(E hi, E lo) {
  u32 w = hi->w + lo->w;
  if (w <= 64 && isC(hi) && isC(lo)) return mkC((hi->c << lo->w) | lo->c, w);
  if (hi->k == E_EXTRACT && lo->k == E_EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w) return mkExtractMem(hi->a, lo->c, w);
  if (hi->k == E_EXTRACT && hi->a == lo && hi->c == lo->w) return mkExtract(lo, 0, w); // cannot happen (width), kept harmless
  if (isC(hi, 0)) return mkZExt(lo, w);
  if (hi->k == E_ZEXT) return mkZExt(mkConcat(hi->a, lo), w);
  if (lo->k == E_CONCAT) { // concat(x, concat(y,z)) with x,y mergeable
    E hy = nullptr; E y = lo->a;
    if (hi->k == E_EXTRACT && y->k == E_EXTRACT && hi->a == y->a && hi->c == y->c + y->w) hy = mkExtractMem(hi->a, y->c, hi->w + y->w);
    else if (hi->w + y->w <= 64 && isC(hi) && isC(y)) hy = mkC((hi->c << y->w) | y->c, hi->w + y->w);
    if (hy) return mkConcat(hy, lo->b);
  }
  if (hi->k == E_CONCAT) { return mkConcat(hi->a, mkConcat(hi->b, lo)); }
  return P().get(E_CONCAT, w, 0, hi, lo);
}
E mkExtract(E a, u32 lo, u32 w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkC(a->c >> lo, w);
  switch (a->k) {
    case E_EXTRACT: return mkExtract(a->a, a->c + lo, w);
    case E_ZEXT: if (lo >= a->a->w) return mkC(0, w);
      if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
      return mkZExt(mkExtract(a->a, lo, a->a->w - lo), w);
    case E_SEXT: if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
      if (lo < a->a->w) return mkSExt(mkExtract(a->a, lo, a->a->w - lo), w);
      return mkSExt(mkExtract(a->a, a->a->w - 1, 1), w);
    case E_CONCAT: { u32 lw = a->b->w;
      if (lo >= lw) return mkExtract(a->a, lo - lw, w);
      if (lo + w <= lw) return mkExtract(a->b, lo, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo)); }
    case E_AND: case E_OR: case E_XOR: if (isC(a->b) || (a->a->k == E_CONCAT && a->b->k == E_CONCAT)) {
      E x = mkExtract(a->a, lo, w), y = mkExtract(a->b, lo, w);
      return a->k == E_AND ? mkAnd(x, y) : a->k == E_OR ? mkOr(x, y) : mkXor(x, y); } break;
    case E_ITE: if ((isC(a->b) || isC(a->d))) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w)); 
      return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w));
    case E_ADD: case E_SUB: case E_MUL: if (lo == 0 && a->w <= 64) { E x = mkExtract(a->a, 0, w), y = mkExtract(a->b, 0, w);
      return a->k == E_ADD ? mkAdd(x, y) : a->k == E_SUB ? mkSub(x, y) : mkMul(x, y); } break;
    default: break;
  }
  return P().get(E_EXTRACT, w, lo, a);
}
// byte of a value that goes to memory: keeps arithmetic whole so that a later load reassembles it
E mkExtractMem(E a, u32 lo, u32 w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkC(a->c >> lo, w);
  switch (a->k) {
    case E_EXTRACT: return mkExtractMem(a->a, a->c + lo, w);
    case E_ZEXT: if (lo >= a->a->w) return mkC(0, w);
      if (lo + w <= a->a->w) return mkExtractMem(a->a, lo, w);
      return mkZExt(mkExtractMem(a->a, lo, a->a->w - lo), w);
    case E_CONCAT: { u32 lw = a->b->w;
      if (lo >= lw) return mkExtractMem(a->a, lo - lw, w);
      if (lo + w <= lw) return mkExtractMem(a->b, lo, w);
      return mkConcat(mkExtractMem(a->a, 0, lo + w - lw), mkExtractMem(a->b, lo, lw - lo)); }
    default: return P().get(E_EXTRACT, w, lo, a);
  }
}
E mkNorm(E a) { return a->k == E_EXTRACT ? mkExtract(a->a, a->c, a->w) : a; }
E mkZExt(E a, u32 w) {
  if (w == a->w) return a;
  if (w < a->w) return mkExtract(a, 0, w);
  if (isC(a) && w <= 64) return mkC(a->c, w);
  if (a->k == E_ZEXT) return mkZExt(a->a, w);
  if (isArith(a) && w <= 64 && a->w >= 9) { const Poly& p = poly(a); i128 lo, hi; if (p.ok && pinterval(p, lo, hi) && lo >= 0 && hi <= (i128)mask(a->w)) return build(p, w); }
  if (a->k == E_ITE && isC(a->b) && isC(a->d) && w <= 64) return mkIte(a->a, mkC(a->b->c, w), mkC(a->d->c, w));
  return P().get(E_ZEXT, w, 0, a);
}
E mkSExt(E a, u32 w) {
  if (w == a->w) return a;
  if (w < a->w) return mkExtract(a, 0, w);
  if (isC(a) && w <= 64) return mkC((u64)sx(a->c, a->w), w);
  if (a->k == E_SEXT) return mkSExt(a->a, w);
  if (a->k == E_ZEXT) return mkZExt(a->a, w);
  if (isArith(a) && w <= 64 && a->w >= 9) { const Poly& p = poly(a); i128 lo, hi; if (p.ok && pinterval(p, lo, hi) && lo >= -((i128)1 << (a->w - 1)) && hi < ((i128)1 << (a->w - 1))) return build(p, w); }
  else if (a->w <= 64 && a->w > 1 && !(umax(a) >> (a->w - 1))) return mkZExt(a, w);
  if (a->k == E_ITE && isC(a->b) && isC(a->d) && w <= 64) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->d, w));
  return P().get(E_SEXT, w, 0, a);
}
E mkIte(E c, E t, E f) {
  if (isC(c)) return c->c ? t : f;
  if (t == f) return t;
  if (t->w == 1) {
    if (isC(t) && isC(f)) return t->c ? c : mkNot(c);
    if (isC(t)) return t->c ? mkOr(c, f) : mkAnd(mkNot(c), f);
    if (isC(f)) return f->c ? mkOr(mkNot(c), t) : mkAnd(c, t);
  }
  if (c->k == E_XOR && isC(c->b, 1)) return mkIte(c->a, f, t);
  if (f->k == E_ITE && f->a == c) return mkIte(c, t, f->d);
  if (t->k == E_ITE && t->a == c) return mkIte(c, t->b, f);
  if (f->k == E_ITE && f->b == t) return mkIte(mkOr(c, f->a), t, f->d);
  return P().get(E_ITE, t->w, 0, c, t, f);
}

u64 concreteFP(EK k, u32 w, u32 aw, u64 a, u64 b) {
  auto D = [&](u64 x, u32 ww) { if (ww == 64) { double d; memcpy(&d, &x, 8); return d; } float f; u32 y = x; memcpy(&f, &y, 4); return (double)f; };
  auto F = [&](u64 x) { float f; u32 y = x; memcpy(&f, &y, 4); return f; };
  auto B64 = [](double d) { u64 x; memcpy(&x, &d, 8); return x; };
  auto B32 = [](float f) { u32 x; memcpy(&x, &f, 4); return (u64)x; };
  switch (k) {
    case E_FADD: return w == 64 ? B64(D(a, 64) + D(b, 64)) : B32(F(a) + F(b));
    case E_FSUB: return w == 64 ? B64(D(a, 64) - D(b, 64)) : B32(F(a) - F(b));
    case E_FMUL: return w == 64 ? B64(D(a, 64) * D(b, 64)) : B32(F(a) * F(b));
    case E_FDIV: return w == 64 ? B64(D(a, 64) / D(b, 64)) : B32(F(a) / F(b));
    case E_FEQ: return D(a, aw) == D(b, aw);
    case E_FLT: return D(a, aw) < D(b, aw);
    case E_FLE: return D(a, aw) <= D(b, aw);
    case E_FISNAN: return std::isnan(D(a, aw));
    case E_FP2SI: { double d = std::trunc(D(a, aw)); if (std::isnan(d) || d >= 9223372036854775808.0 || d < -9223372036854775808.0) return (1ull << (w - 1)); return (u64)(i64)d & mask(w); }
    case E_FP2UI: { double d = std::trunc(D(a, aw)); if (std::isnan(d) || d >= 18446744073709551616.0 || d < 0) return 0; return (u64)d & mask(w); }
    case E_SI2FP: return w == 64 ? B64((double)sx(a, aw)) : B32((float)sx(a, aw));
    case E_UI2FP: return w == 64 ? B64((double)a) : B32((float)a);
    case E_FPEXT: return B64((double)F(a));
    case E_FPTRUNC: return B32((float)D(a, 64));
    default: abort();
  }
}
E mkFP(EK k, u32 w, E a, E b) {
  if (isC(a) && (!b || isC(b))) return mkC(concreteFP(k, w, a->w, a->c, b ? b->c : 0), w);
  return P().get(k, w, 0, a, b);
}

const std::vector<u32>& varsOf(E e) {
  if (e->vs) return *e->vs;
  // iterative to avoid deep recursion
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    if (x->vs) { st.pop_back(); continue; }
    bool ready = true;
    for (E y : {x->a, x->b, x->d}) if (y && !y->vs) { st.push_back(y); ready = false; }
    if (!ready) continue;
    st.pop_back();
    std::shared_ptr<std::vector<u32>> r;
    const std::vector<u32>* parts[3]; int n = 0;
    for (E y : {x->a, x->b, x->d}) if (y && !y->vs->empty()) parts[n++] = y->vs.get();
    if (x->k == E_VAR) { r = std::make_shared<std::vector<u32>>(1, (u32)x->c); }
    else if (x->k == E_SELECT) { r = std::make_shared<std::vector<u32>>(*x->a->vs); r->push_back((u32)x->c); std::sort(r->begin(), r->end()); r->erase(std::unique(r->begin(), r->end()), r->end()); }
    else if (n == 0) { static auto empty = std::make_shared<std::vector<u32>>(); r = empty; }
    else {
      // share when one part subsumes
      for (E y : {x->a, x->b, x->d}) if (y && !y->vs->empty()) {
        if (!r) r = y->vs;
        else if (r != y->vs && !std::includes(r->begin(), r->end(), y->vs->begin(), y->vs->end())) {
          auto m = std::make_shared<std::vector<u32>>();
          std::set_union(r->begin(), r->end(), y->vs->begin(), y->vs->end(), std::back_inserter(*m)); r = m;
        }
      }
    }
    x->vs = r;
  }
  return *e->vs;
}

u128 Evaluator::ev(E root) {
  if (isC(root)) return root->c;
  auto it0 = memo.find(root->id); if (it0 != memo.end()) return it0->second;
  auto M = [](u32 w) -> u128 { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); };
  auto S = [](u128 v, u32 w) -> i128 { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); return (i128)((v ^ m) - m); };
  std::vector<E> st{root};
  auto get = [&](E x) -> u128 { return isC(x) ? (u128)x->c : memo[x->id]; };
  auto has = [&](E x) { return isC(x) || memo.count(x->id); };
  while (!st.empty()) {
    E e = st.back();
    if (has(e)) { st.pop_back(); continue; }
    if (e->k == E_ITE) {
      if (!has(e->a)) { st.push_back(e->a); continue; }
      E t = get(e->a) ? e->b : e->d;
      if (!has(t)) { st.push_back(t); continue; }
      memo[e->id] = get(t); st.pop_back(); continue;
    }
    bool ok = true;
    for (E y : {e->a, e->b, e->d}) if (y && !has(y)) { st.push_back(y); ok = false; }
    if (!ok) continue;
    st.pop_back();
    u32 w = e->w; u128 a = e->a ? get(e->a) : 0, b = e->b ? get(e->b) : 0, r = 0; u32 aw = e->a ? e->a->w : 0;
    switch (e->k) {
      case E_CONST: r = e->c; break;
      case E_VAR: { auto it = m->v.find((u32)e->c); r = it == m->v.end() ? 0 : it->second; } break;
      case E_SELECT: { auto it = m->arr.find((u32)e->c); if (it != m->arr.end()) { auto j = it->second.find((u64)a); if (j != it->second.end()) r = j->second; } } break;
      case E_ADD: r = a + b; break; case E_SUB: r = a - b; break; case E_MUL: r = a * b; break;
      case E_UDIV: r = b ? a / b : M(w); break;
      case E_UREM: r = b ? a % b : a; break;
      case E_SDIV: { i128 x = S(a, w), y = S(b, w); r = y == 0 ? (x >= 0 ? M(w) : 1) : (y == -1 ? (u128)(-x) : (u128)(x / y)); } break;
      case E_SREM: { i128 x = S(a, w), y = S(b, w); r = y == 0 ? a : (y == -1 ? 0 : (u128)(x % y)); } break;
      case E_AND: r = a & b; break; case E_OR: r = a | b; break; case E_XOR: r = a ^ b; break;
      case E_SHL: r = b >= w ? 0 : a << (int)b; break;
      case E_LSHR: r = b >= w ? 0 : a >> (int)b; break;
      case E_ASHR: { i128 x = S(a, w); r = (u128)(b >= w ? (x < 0 ? -1 : 0) : x >> (int)b); } break;
      case E_EQ: r = a == b; break; case E_ULT: r = a < b; break; case E_ULE: r = a <= b; break;
      case E_SLT: r = S(a, aw) < S(b, aw); break; case E_SLE: r = S(a, aw) <= S(b, aw); break;
      case E_CONCAT: r = (a << e->b->w) | b; break;
      case E_EXTRACT: r = a >> (int)e->c; break;
      case E_ZEXT: r = a; break; case E_SEXT: r = (u128)S(a, aw); break;
      case E_ITE: break;
      default: r = concreteFP(e->k, w, aw, (u64)a, (u64)b); break;
    }
    memo[e->id] = r & M(w);
  }
  return memo[root->id];
}

// ---------------------------------------------------------------- Z3
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
Z3Solver::Z3Solver() : timeoutMs(20000) {
  Z3_config cfg = Z3_mk_config(); ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(ctx, z3err);
  fp32 = Z3_mk_fpa_sort_32(ctx); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, fp32));
  fp64 = Z3_mk_fpa_sort_64(ctx); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, fp64));
  rne = Z3_mk_fpa_rne(ctx); Z3_inc_ref(ctx, rne); rtz = Z3_mk_fpa_rtz(ctx); Z3_inc_ref(ctx, rtz);
}
Z3_ast Z3Solver::tr(E root) {
  if (memo.size() < POOL().all.size()) memo.resize(POOL().all.size() + 1024, nullptr);
  if (memo[root->id]) return memo[root->id];
  std::vector<E> st{root};
  auto G = [&](E x) { return memo[x->id]; };
  Z3_ast one1 = nullptr, zero1 = nullptr; (void)one1; (void)zero1;
  auto BV = [&](E x) -> Z3_ast { // as bit-vector even when width 1
    if (x->w > 1) return G(x);
    Z3_sort s = Z3_mk_bv_sort(ctx, 1);
    return Z3_mk_ite(ctx, G(x), Z3_mk_unsigned_int64(ctx, 1, s), Z3_mk_unsigned_int64(ctx, 0, s)); };
  auto FPv = [&](E x) { return Z3_mk_fpa_to_fp_bv(ctx, G(x), x->w == 64 ? fp64 : fp32); };
  while (!st.empty()) {
    E e = st.back();
    if (memo[e->id]) { st.pop_back(); continue; }
    bool ok = true;
    for (E y : {e->a, e->b, e->d}) if (y && !memo[y->id]) { st.push_back(y); ok = false; }
    if (!ok) continue;
    st.pop_back();
    u32 w = e->w; Z3_ast r = nullptr;
    switch (e->k) {
      case E_CONST: r = w == 1 ? (e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : Z3_mk_unsigned_int64(ctx, e->c, Z3_mk_bv_sort(ctx, w)); break;
      case E_VAR: { Z3_symbol s = Z3_mk_int_symbol(ctx, (int)e->c); r = Z3_mk_const(ctx, s, w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, w)); } break;
      case E_SELECT: { Z3_symbol s = Z3_mk_string_symbol(ctx, ("sel" + std::to_string(e->id)).c_str()); r = Z3_mk_const(ctx, s, Z3_mk_bv_sort(ctx, 8)); } break;   // ackermannised in check()
      case E_ADD: r = Z3_mk_bvadd(ctx, G(e->a), G(e->b)); break;
      case E_SUB: r = Z3_mk_bvsub(ctx, G(e->a), G(e->b)); break;
      case E_MUL: r = Z3_mk_bvmul(ctx, G(e->a), G(e->b)); break;
      case E_UDIV: r = Z3_mk_bvudiv(ctx, G(e->a), G(e->b)); break;
      case E_SDIV: r = Z3_mk_bvsdiv(ctx, G(e->a), G(e->b)); break;
      case E_UREM: r = Z3_mk_bvurem(ctx, G(e->a), G(e->b)); break;
      case E_SREM: r = Z3_mk_bvsrem(ctx, G(e->a), G(e->b)); break;
      case E_AND: if (w == 1) { Z3_ast x[2] = {G(e->a), G(e->b)}; r = Z3_mk_and(ctx, 2, x); } else r = Z3_mk_bvand(ctx, G(e->a), G(e->b)); break;
      case E_OR: if (w == 1) { Z3_ast x[2] = {G(e->a), G(e->b)}; r = Z3_mk_or(ctx, 2, x); } else r = Z3_mk_bvor(ctx, G(e->a), G(e->b)); break;
      case E_XOR: r = w == 1 ? (isC(e->b, 1) ? Z3_mk_not(ctx, G(e->a)) : Z3_mk_xor(ctx, G(e->a), G(e->b))) : Z3_mk_bvxor(ctx, G(e->a), G(e->b)); break;
      case E_SHL: r = Z3_mk_bvshl(ctx, BV(e->a), BV(e->b)); if (w == 1) r = Z3_mk_eq(ctx, r, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); break;
      case E_LSHR: r = Z3_mk_bvlshr(ctx, BV(e->a), BV(e->b)); if (w == 1) r = Z3_mk_eq(ctx, r, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); break;
      case E_ASHR: r = Z3_mk_bvashr(ctx, BV(e->a), BV(e->b)); if (w == 1) r = Z3_mk_eq(ctx, r, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); break;
      case E_EQ: r = Z3_mk_eq(ctx, G(e->a), G(e->b)); break;
      case E_ULT: r = Z3_mk_bvult(ctx, G(e->a), G(e->b)); break;
      case E_ULE: r = Z3_mk_bvule(ctx, G(e->a), G(e->b)); break;
      case E_SLT: r = Z3_mk_bvslt(ctx, BV(e->a), BV(e->b)); break;
      case E_SLE: r = Z3_mk_bvsle(ctx, BV(e->a), BV(e->b)); break;
      case E_CONCAT: r = Z3_mk_concat(ctx, BV(e->a), BV(e->b)); break;
      case E_EXTRACT: r = Z3_mk_extract(ctx, e->c + w - 1, e->c, G(e->a));
        if (w == 1) r = Z3_mk_eq(ctx, r, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); break;
      case E_ZEXT: r = e->a->w == 1 ? Z3_mk_ite(ctx, G(e->a), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, w)), Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, w))) : Z3_mk_zero_ext(ctx, w - e->a->w, G(e->a)); break;
      case E_SEXT: r = Z3_mk_sign_ext(ctx, w - e->a->w, BV(e->a)); break;
      case E_ITE: r = Z3_mk_ite(ctx, G(e->a), G(e->b), G(e->d)); break;
      case E_FADD: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, rne, FPv(e->a), FPv(e->b))); break;
      case E_FSUB: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, rne, FPv(e->a), FPv(e->b))); break;
      case E_FMUL: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, rne, FPv(e->a), FPv(e->b))); break;
      case E_FDIV: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, rne, FPv(e->a), FPv(e->b))); break;
      case E_FEQ: r = Z3_mk_fpa_eq(ctx, FPv(e->a), FPv(e->b)); break;
      case E_FLT: r = Z3_mk_fpa_lt(ctx, FPv(e->a), FPv(e->b)); break;
      case E_FLE: r = Z3_mk_fpa_leq(ctx, FPv(e->a), FPv(e->b)); break;
      case E_FISNAN: r = Z3_mk_fpa_is_nan(ctx, FPv(e->a)); break;
      case E_FP2SI: r = Z3_mk_fpa_to_sbv(ctx, rtz, FPv(e->a), w); break;
      case E_FP2UI: r = Z3_mk_fpa_to_ubv(ctx, rtz, FPv(e->a), w); break;
      case E_SI2FP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, rne, BV(e->a), w == 64 ? fp64 : fp32)); break;
      case E_UI2FP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rne, BV(e->a), w == 64 ? fp64 : fp32)); break;
      case E_FPEXT: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rne, FPv(e->a), fp64)); break;
      case E_FPTRUNC: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rne, FPv(e->a), fp32)); break;
    }
    Z3_inc_ref(ctx, r); memo[e->id] = r;
  }
  return memo[root->id];
}
static void collect(E e, std::set<u32>& seen, std::vector<E>& sel, std::vector<E>& vars) {
  std::vector<E> st{e};
  while (!st.empty()) { E x = st.back(); st.pop_back(); if (!seen.insert(x->id).second) continue;
    if (x->k == E_SELECT) sel.push_back(x); if (x->k == E_VAR) vars.push_back(x);
    for (E y : {x->a, x->b, x->d}) if (y && !isC(y)) st.push_back(y); }
}
int Z3Solver::check(const std::vector<E>& cs, std::shared_ptr<Model>& out) {
  st.queries++;
  std::vector<u32> ids; for (E e : cs) ids.push_back(e->id); std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
  std::string key((const char*)ids.data(), ids.size() * 4);
  auto it = cache.find(key); if (it != cache.end()) { st.cacheHits++; out = it->second.second; return it->second.first; }
  auto t0 = std::chrono::steady_clock::now();
  bool fp = false; std::set<u32> seen; std::vector<E> sel, vars; for (E e : cs) collect(e, seen, sel, vars);
  for (u32 i : seen) if (POOL().all[i]->k >= E_FADD) fp = true;
  Z3_solver s = fp ? Z3_mk_solver(ctx) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
  Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), fp ? timeoutMs : std::min<unsigned>(timeoutMs, 2000));
  Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
  for (u32 i : ids) Z3_solver_assert(ctx, s, tr(POOL().all[i]));
  for (size_t i = 0; i < sel.size(); i++) for (size_t j = 0; j < i; j++) if (sel[i]->c == sel[j]->c) { E d = mkOr(mkNot(mkEq(sel[i]->a, sel[j]->a)), mkEq(sel[i], sel[j])); if (!isC(d)) Z3_solver_assert(ctx, s, tr(d)); }
  if (dumpN < dumpMax && !dumpDir.empty()) { std::string f = dumpDir + "/q" + std::to_string(dumpN++) + ".smt2"; FILE* o = fopen(f.c_str(), "w"); if (o) { fprintf(o, "%s\n(check-sat)\n", Z3_solver_to_string(ctx, s)); fclose(o); } }
  Z3_lbool r = Z3_solver_check(ctx, s);
  int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  std::shared_ptr<Model> m;
  if (res == 1) {
    m = std::make_shared<Model>(); Z3_model zm = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, zm);
    auto evalu = [&](E e, u64& v) { Z3_ast o; if (!Z3_model_eval(ctx, zm, tr(e), true, &o)) return false; Z3_inc_ref(ctx, o); bool ok;
      if (e->w == 1) { v = Z3_get_bool_value(ctx, o) == Z3_L_TRUE; ok = true; }
      else { uint64_t x = 0; ok = Z3_get_numeral_uint64(ctx, o, &x); v = x; } Z3_dec_ref(ctx, o); return ok; };
    for (E v : vars) { u64 x = 0; evalu(v, x); m->v[(u32)v->c] = x; }
    for (E v : sel) { u64 i = 0, x = 0; if (isC(v->a)) i = v->a->c; else evalu(v->a, i); evalu(v, x); m->arr[(u32)v->c][i] = (u8)x; }
    Z3_model_dec_ref(ctx, zm);
  } else if (res < 0 && !fp) { // second opinion: cvc5, integer-blasting first
    char fn[64]; snprintf(fn, 64, "/tmp/vsym.%d.smt2", (int)getpid()); FILE* o = fopen(fn, "w");
    if (o) { std::string q = Z3_solver_to_string(ctx, s), gv; for (E v : vars) gv += std::string(Z3_ast_to_string(ctx, tr(v))) + " "; for (E v : sel) gv += std::string(Z3_ast_to_string(ctx, tr(v))) + " ";
      fprintf(o, "(set-logic ALL)\n(set-option :produce-models true)\n%s\n(check-sat)\n", q.c_str()); if (!gv.empty()) fprintf(o, "(get-value (%s))\n", gv.c_str()); fclose(o);
      for (int k = 0; k < 2 && res < 0; k++) { std::string cmd = std::string("timeout ") + std::to_string(timeoutMs / 1000 + 1) + " cvc5 " + (k ? "" : "--solve-bv-as-int=sum ") + fn + " 2>/dev/null"; FILE* p = popen(cmd.c_str(), "r"); if (!p) break; std::string out; char b[4096]; size_t n; while ((n = fread(b, 1, 4096, p)) > 0) out.append(b, n); pclose(p);
        if (out.compare(0, 5, "unsat") == 0) { res = 0; st.cvc5++; }
        else if (out.compare(0, 3, "sat") == 0) { m = std::make_shared<Model>(); std::vector<u64> vals; size_t pos = 3; std::map<std::string, u64> mv;
          std::vector<std::string> tok; std::string cur; for (; pos < out.size(); pos++) { char c = out[pos]; if (c == '(' || c == ')' || isspace((unsigned char)c)) { if (!cur.empty()) { tok.push_back(cur); cur.clear(); } } else cur += c; }
          for (size_t i = 0; i + 1 < tok.size(); i += 2) { const std::string& v = tok[i + 1]; u64 x = 0; if (v == "true") x = 1; else if (v.compare(0, 2, "#b") == 0) x = strtoull(v.c_str() + 2, nullptr, 2); else if (v.compare(0, 2, "#x") == 0) x = strtoull(v.c_str() + 2, nullptr, 16); mv[tok[i]] = x; }
          for (E v : vars) m->v[(u32)v->c] = mv[Z3_ast_to_string(ctx, tr(v))];
          Evaluator e0(m.get()); for (E v : sel) { u64 i = (u64)e0.ev(v->a); m->arr[(u32)v->c][i] = (u8)mv[Z3_ast_to_string(ctx, tr(v))]; }
          res = 1; st.cvc5++; } }
      unlink(fn); }
  }
  if (res == 1) { // trust, but verify: the model must satisfy the constraints under our own evaluator
    Evaluator ev(m.get()); for (E e : cs) if (!ev.ev(e)) { fprintf(stderr, "vsym: model validation failed\n"); res = -1; m.reset(); break; }
  }
  Z3_solver_dec_ref(ctx, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (getenv("VSYM_SLOW") && dt > atof(getenv("VSYM_SLOW"))) { static int k = 0; FILE* o = fopen(("/tmp/slow" + std::to_string(k++) + ".smt2").c_str(), "w"); if (o) { fprintf(o, "; %f %d\n", dt, res); Z3_solver s2 = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, s2); for (u32 i : ids) Z3_solver_assert(ctx, s2, tr(POOL().all[i])); fprintf(o, "%s\n(check-sat)\n", Z3_solver_to_string(ctx, s2)); Z3_solver_dec_ref(ctx, s2); fclose(o); } }
  st.time += dt; st.maxq = std::max(st.maxq, dt); st.solved++; if (res == 1) st.sat++; else if (res == 0) st.unsat++; else st.unknown++;
  cache[key] = {res, m}; out = m; return res;
}
