#include "expr.h"
#include <random>
int main(int argc, char** argv) {
  std::mt19937_64 R(argc > 1 ? atoi(argv[1]) : 1); u64 bad = 0, n = 0;
  for (int round = 0; round < 3000; round++) {
    std::vector<std::pair<E, u64>> v; Model m;
    for (int i = 0; i < 5; i++) { u32 ws[] = {8, 17, 21, 32, 64, 5, 16, 31}; u32 w = ws[R() % 8]; E x = mkVar("x", w); u64 val = R() & mask(w); if (R() % 3 == 0) val = (R() % 4) & mask(w); if (R()%5==0) val = mask(w) - R()%3; val &= mask(w); m.v[x->c] = val; v.push_back({x, val}); }
    auto pick = [&](u32 w) -> std::pair<E, u64> { for (int t = 0; t < 8; t++) { auto& p = v[R() % v.size()]; if (p.first->w == w) return p; }
      if (R() % 3 == 0) { u64 c = R() % 2 ? R() % 100 : (R() % 3 ? (u64)0 - R() % 20 : R()); return {mkC(c, w), c & mask(w)}; }
      auto p = v[R() % v.size()]; if (p.first->w < w) { if (R() % 2) return {mkZExt(p.first, w), p.second}; return {mkSExt(p.first, w), (u64)sx(p.second, p.first->w) & mask(w)}; }
      u32 lo = R() % 3 ? 0 : R() % (p.first->w - w + 1); return {mkExtract(p.first, lo, w), (p.second >> lo) & mask(w)}; };
    for (int i = 0; i < 25; i++) {
      u32 ws[] = {8, 16, 17, 32, 64, 33, 61}; u32 w = ws[R() % 7]; auto a = pick(w), b = pick(w); E e; u64 r; i64 A = sx(a.second, w), B = sx(b.second, w);
      switch (R() % 24) {
        case 20: case 21: { u64 c = (R() % 3 ? 1 + R() % 1000 : R()) & mask(w); if (!c) continue; auto x = a; E d = mkUDiv(x.first, mkC(c, w)), rm = mkURem(x.first, mkC(c, w)); u64 dv = x.second / c, rv = x.second % c; v.push_back({d, dv}); v.push_back({rm, rv}); e = mkAdd(mkMul(d, mkC(c, w)), rm); r = dv * c + rv; break; }
        case 22: case 23: { u64 c = (R() % 3 ? 1 + R() % 100 : (u64)0 - 1 - R() % 5) & mask(w); i64 C = sx(c, w); if (!C || C == -1) continue; auto x = a; E d = mkSDiv(x.first, mkC(c, w)), rm = mkSRem(x.first, mkC(c, w)); u64 dv = (u64)(A / C) & mask(w), rv = (u64)(A % C) & mask(w); v.push_back({d, dv}); v.push_back({rm, rv}); e = mkAdd(mkMul(d, mkC(c * 7, w)), mkMul(rm, mkC(7, w))); r = dv * c * 7 + rv * 7; break; }
        case 0: case 1: case 2: e = mkAdd(a.first, b.first); r = a.second + b.second; break;
        case 3: case 4: e = mkSub(a.first, b.first); r = a.second - b.second; break;
        case 5: case 6: e = mkMul(a.first, b.first); r = a.second * b.second; break;
        case 7: e = mkUlt(a.first, b.first); r = a.second < b.second; break;
        case 8: e = mkUle(a.first, b.first); r = a.second <= b.second; break;
        case 9: e = mkSlt(a.first, b.first); r = A < B; break;
        case 10: e = mkSle(a.first, b.first); r = A <= B; break;
        case 11: e = mkEq(a.first, b.first); r = a.second == b.second; break;
        case 12: e = mkAnd(a.first, b.first); r = a.second & b.second; break;
        case 13: e = mkOr(a.first, b.first); r = a.second | b.second; break;
        case 14: { u32 s = R() % w; e = mkShl(a.first, mkC(s, w)); r = a.second << s; break; }
        case 15: { u32 s = R() % w; e = mkLShr(a.first, mkC(s, w)); r = a.second >> s; break; }
        case 16: { auto c = pick(1); e = mkIte(c.first, a.first, b.first); r = c.second ? a.second : b.second; break; }
        case 17: { if (w + 8 > 64) continue; auto c = pick(8); e = mkConcat(a.first, c.first); r = (a.second << 8) | c.second; break; }
        case 18: { u32 s = R() % w; e = mkAShr(a.first, mkC(s, w)); r = (u64)(A >> s); break; }
        default: e = mkXor(a.first, b.first); r = a.second ^ b.second; break;
      }
      r &= mask(e->w); Evaluator ev(&m); u64 g = (u64)ev.ev(e); n++;
      if (g != r) { bad++; if (bad < 10) printf("MISMATCH round %d w=%u kind=%d got %llx want %llx\n", round, e->w, e->k, (unsigned long long)g, (unsigned long long)r); break; }
      if (!isC(e)) v.push_back({e, r}); else if (R() % 4 == 0) v.push_back({e, r});
    }
  }
  printf("%llu exprs, %llu bad\n", (unsigned long long)n, (unsigned long long)bad); return bad != 0;
}
