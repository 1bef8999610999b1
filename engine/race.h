// Happens-before race detection (vector clocks, byte masks per 8-byte granule), used by the engine (copied with a
// state, pages shared until written) and by the native replay.
#pragma once
#include <stdint.h>
#include <memory>
#include <unordered_map>
#include <vector>
struct Race {
  typedef std::vector<uint32_t> VC;
  struct Acc { uint32_t clk, loc; uint8_t tid, mask, kind; };  // kind: 1 write, 2 atomic
  struct Cell { Acc a[6]; uint8_t n = 0; };
  struct Page { Cell c[64]; };                                 // 512 bytes of memory
  bool on = false; std::vector<VC> C; std::unordered_map<uint64_t, std::shared_ptr<VC>> sync; std::unordered_map<uint64_t, std::shared_ptr<Page>> pg;
  VC& clock(unsigned t) { while (C.size() <= t) { VC v(C.size() + 1, 0); v[C.size()] = 1; C.push_back(v); } return C[t]; }
  static void join(VC& a, const VC& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) if (a[i] < b[i]) a[i] = b[i]; }
  void acq(unsigned t, uint64_t p) { if (!on) return; auto it = sync.find(p); if (it != sync.end()) join(clock(t), *it->second); }
  void rel(unsigned t, uint64_t p) { if (!on) return; VC& c = clock(t); auto& s = sync[p]; if (!s) s = std::make_shared<VC>(c); else { if (s.use_count() > 1) s = std::make_shared<VC>(*s); join(*s, c); } c[t]++; }
  void all(unsigned t) { if (!on) return; VC& c = clock(t); for (size_t i = 0; i < C.size(); i++) if (i != t) { VC o = C[i]; join(clock(t), o); } (void)c; }
  void clear(uint64_t p, uint64_t n) { if (!on || !n) return; for (uint64_t g = p >> 3; g <= (p + n - 1) >> 3; g++) { auto it = pg.find(g >> 6); if (it == pg.end()) { g |= 63; continue; } if (it->second.use_count() > 1) it->second = std::make_shared<Page>(*it->second); it->second->c[g & 63].n = 0; } }
  // returns the location of a conflicting earlier access, or 0 (locations are never 0)
  uint32_t access(unsigned t, uint64_t p, uint64_t n, int kind, uint32_t loc) {
    if (!on || !n) return 0; VC& c = clock(t); uint32_t bad = 0; uint64_t e = p + n;
    for (uint64_t g = p >> 3; g <= (e - 1) >> 3; g++) {
      uint64_t lo = g << 3; uint8_t m = 0; for (int i = 0; i < 8; i++) if (lo + i >= p && lo + i < e) m |= 1 << i;
      auto& sp = pg[g >> 6]; if (!sp) sp = std::make_shared<Page>(); Cell& q = sp->c[g & 63]; bool same = false;
      for (int i = 0; i < q.n; i++) { Acc& a = q.a[i]; if (a.tid == t) { if (a.clk == c[t] && a.mask == m && a.kind == kind) same = true; continue; } if (!(a.mask & m) || !((a.kind | kind) & 1) || (a.kind & kind & 2)) continue; if (a.clk > (a.tid < c.size() ? c[a.tid] : 0)) bad = a.loc; }
      if (same) continue;
      Page* w = sp.get(); if (sp.use_count() > 1) { sp = std::make_shared<Page>(*w); w = sp.get(); } Cell& k = w->c[g & 63];
      // forget what this access supersedes, then add it
      int j = 0; for (int i = 0; i < k.n; i++) { Acc& a = k.a[i]; bool hb = a.tid == t || a.clk <= (a.tid < c.size() ? c[a.tid] : 0); bool cover = (a.mask & ~m) == 0; if (hb && cover && ((kind & 1) || !(a.kind & 1)) && (kind == a.kind || kind == 1 || (a.tid == t && !(kind & 2)))) continue; if (i != j) k.a[j] = a; j++; } k.n = j;
      if (k.n == 6) { for (int i = 1; i < 6; i++) k.a[i - 1] = k.a[i]; k.n = 5; }
      Acc& a = k.a[k.n++]; a.clk = c[t]; a.loc = loc; a.tid = t; a.mask = m; a.kind = kind; }
    return bad; }
};
