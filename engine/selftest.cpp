// Random differential test of the simplifier: every constructor is compared, on random models, with plain arithmetic.
#include "expr.h"
#include <random>
#include <cstdio>
#include <cstdlib>
// the quotient with the sign decided by the caller, put back together
static E sknown(E a, E b, bool rem) {
  E d = rem ? mkSRem(a, b) : mkSDiv(a, b); static unsigned alt = 0; if (alt++ & 1) return d;
  E p = mkSDivRemKnown(a, b, false, rem), n = mkSDivRemKnown(a, b, true, rem); if (!p) p = d; if (!n) n = d;
  return mkIte(mkSlt(a, mkC(0, a->w)), n, p);
}
int main(int argc, char **argv) {
  unsigned seed = argc > 1 ? atoi(argv[1]) : 1, rounds = argc > 2 ? atoi(argv[2]) : 2000;
  std::mt19937_64 R(seed); const int NM = 12;
  auto rn = [&](uint64_t n) { return R() % n; };
  unsigned long checked = 0;
  for (unsigned round = 0; round < rounds; round++) {
    struct N { E e; std::vector<u128> v; }; std::vector<N> pool; std::vector<Model> ms(NM);
    auto var = [&](unsigned w) {
      s128 lo = 0, hi = 0; bool rg = rn(4) != 0; E e; std::string nm = "x" + std::to_string(R());
      s128 mn = -((s128)1 << (w - 1)), mx = ((s128)1 << (w - 1)) - 1;
      if (rg) { unsigned b = 1 + rn(w); u128 sp = R() & maskw(b); lo = rn(3) ? 0 : -(s128)(R() & maskw(1 + rn(w - 1))); hi = lo + (s128)sp; if (lo < mn) lo = mn; if (hi > mx) hi = mx; e = mkRangedVar(nm, w, lo, hi); }
      else e = mkVar(nm, w);
      N n; n.e = e;
      for (int i = 0; i < NM; i++) {
        u128 v;
        if (rg) { u128 span = (u128)(hi - lo) + 1; int c = rn(4); v = c == 0 ? (u128)lo : c == 1 ? (u128)hi : (u128)lo + (u128)R() % span; }
        else { int c = rn(5); v = c == 0 ? 0 : c == 1 ? ~(u128)0 : c == 2 ? (u128)mx : c == 3 ? rn(100) : R(); }
        v &= maskw(w); { E x = e; while (x->k == K_ZEXT || x->k == K_SEXT) x = x->a; if (x->k == K_VAR) ms[i].m[x->aux] = v & maskw(x->w); } n.v.push_back(v);
      }
      pool.push_back(n);
    };
    static const unsigned ws[] = {1, 8, 16, 32, 32, 64, 64, 64, 128};
    for (int i = 0; i < 5; i++) var(ws[1 + rn(7)]);
    auto pick = [&](unsigned w) -> N {
      for (int t = 0; t < 6; t++) { N &n = pool[rn(pool.size())]; if (n.e->w == w) return n; }
      if (rn(3) == 0) { static const uint64_t ks[] = {1, 2, 3, 4, 7, 10, 12, 24, 60, 97, 100, 365, 400, 1000, 1461, 3600, 10000, 36524, 146097, 10000000, 864000000000ull, 0, ~0ull, 1ull << 31, 1ull << 63};
        u128 k = ks[rn(sizeof ks / 8)]; if (rn(4) == 0) k = -k; N n; n.e = mkC(k, w); n.v.assign(NM, k & maskw(w)); return n; }
      N s = pool[rn(pool.size())]; N n; bool sg = rn(2);
      if (s.e->w < w) { n.e = sg ? mkSExt(s.e, w) : mkZExt(s.e, w); for (auto v : s.v) n.v.push_back((sg ? (u128)sx(v, s.e->w) : v) & maskw(w)); }
      else if (s.e->w > w) { unsigned off = rn(3) ? 0 : rn(s.e->w - w + 1); n.e = mkExtract(s.e, off, w); for (auto v : s.v) n.v.push_back((v >> off) & maskw(w)); }
      else n = s;
      return n;
    };
    for (int step = 0; step < 40; step++) {
      unsigned w = ws[rn(9)]; u128 M = maskw(w); int op = rn(26); N a = pick(w), b = pick(w), n;
      if ((op == 2 || op == 3 || op == 4) && rn(2)) { static const uint64_t ks[] = {3, 7, 10, 12, 24, 60, 100, 365, 400, 1000, 1461, 10000, 36524, 146097, 10000000, 864000000000ull}; u128 k = ks[rn(16)] & M; b.e = mkC(k, w); b.v.assign(NM, k); }
      auto bin = [&](E e, auto f) { n.e = e; for (int i = 0; i < NM; i++) n.v.push_back(f(a.v[i], b.v[i]) & maskw(e->w)); };
      bool bnz = b.e->lo > 0;
      switch (op) {
      case 0: case 5: case 6: bin(mkAdd(a.e, b.e), [&](u128 x, u128 y) { return x + y; }); break;
      case 1: case 7: case 8: bin(mkSub(a.e, b.e), [&](u128 x, u128 y) { return x - y; }); break;
      case 2: case 9: bin(mkMul(a.e, b.e), [&](u128 x, u128 y) { return x * y; }); break;
      case 3: case 10: if (!bnz) continue; bin(mkUDiv(a.e, b.e), [&](u128 x, u128 y) { return x / y; }); break;
      case 4: case 11: if (!bnz) continue; bin(rn(2) ? mkURem(a.e, b.e) : mkSub(a.e, rn(2) ? mkMul(mkUDiv(a.e, b.e), b.e) : mkMul(b.e, mkUDiv(a.e, b.e))), [&](u128 x, u128 y) { return x % y; }); break;
      case 12: if (!bnz || w == 128) continue; bin(sknown(a.e, b.e, false), [&](u128 x, u128 y) { s128 p = sx(x, w), q = sx(y, w); return q == -1 ? -(u128)p : (u128)(p / q); }); break;
      case 13: if (!bnz || w == 128) continue; bin(sknown(a.e, b.e, true), [&](u128 x, u128 y) { s128 p = sx(x, w), q = sx(y, w); return q == -1 ? (u128)0 : (u128)(p % q); }); break;
      case 14: bin(mkAnd(a.e, b.e), [&](u128 x, u128 y) { return x & y; }); break;
      case 15: bin(mkOr(a.e, b.e), [&](u128 x, u128 y) { return x | y; }); break;
      case 16: bin(mkXor(a.e, b.e), [&](u128 x, u128 y) { return x ^ y; }); break;
      case 17: bin(mkShl(a.e, b.e), [&](u128 x, u128 y) { return y >= w ? (u128)0 : x << (unsigned)y; }); break;
      case 18: bin(mkLShr(a.e, b.e), [&](u128 x, u128 y) { return y >= w ? (u128)0 : x >> (unsigned)y; }); break;
      case 19: bin(mkAShr(a.e, b.e), [&](u128 x, u128 y) { return (u128)(sx(x, w) >> (unsigned)(y >= w ? w - 1 : y)); }); break;
      case 20: bin(mkEq(a.e, b.e), [&](u128 x, u128 y) { return (u128)(x == y); }); break;
      case 21: bin(mkUlt(a.e, b.e), [&](u128 x, u128 y) { return (u128)(x < y); }); break;
      case 22: bin(mkUle(a.e, b.e), [&](u128 x, u128 y) { return (u128)(x <= y); }); break;
      case 23: bin(mkSlt(a.e, b.e), [&](u128 x, u128 y) { return (u128)(sx(x, w) < sx(y, w)); }); break;
      case 24: bin(mkSle(a.e, b.e), [&](u128 x, u128 y) { return (u128)(sx(x, w) <= sx(y, w)); }); break;
      case 25: { if (rn(2)) { N c = pick(1); n.e = mkIte(c.e, a.e, b.e); for (int i = 0; i < NM; i++) n.v.push_back(c.v[i] ? a.v[i] : b.v[i]); }
        else if (2 * w <= 128) { n.e = mkConcat(a.e, b.e); for (int i = 0; i < NM; i++) n.v.push_back((a.v[i] << w) | b.v[i]); } else continue; break; }
      }
      for (int i = 0; i < NM; i++) {
        u128 got = evalFresh(n.e, ms[i]); checked++;
        s128 sg = sx(n.v[i], n.e->w);
        if (got != n.v[i] || n.v[i] < n.e->lo || n.v[i] > n.e->hi || sg < n.e->slo || sg > n.e->shi) {
          printf("MISMATCH round %u step %d op %d w %u: got %s want %s range %s..%s\n  a=%s\n  b=%s\n  r=%s\n", round, step, op, w, u128s(got).c_str(), u128s(n.v[i]).c_str(), u128s(n.e->lo).c_str(), u128s(n.e->hi).c_str(), show(a.e, 9).c_str(), show(b.e, 9).c_str(), show(n.e, 9).c_str());
          for (auto &kv : ms[i].m) printf("  %s=%s\n", g_vars[kv.first].name.c_str(), u128s(kv.second).c_str());
          return 1; }
      }
      pool.push_back(n);
    }
  }
  printf("selftest: %lu evaluations agree\n", checked);
  return 0;
}
