#include "expr.h"
#include <cmath>
#include <unordered_set>
std::vector<VarInfo> g_vars;
static uint32_t g_nextId = 0;
static uint32_t g_epoch = 1;
void newEpoch() { g_epoch++; }
size_t numExprs() { return g_nextId; }

std::string u128s(u128 v) {
  if (!v) return "0";
  std::string s; while (v) { s.push_back('0' + (int)(v % 10)); v /= 10; }
  std::reverse(s.begin(), s.end()); return s;
}

// ---- var sets -------------------------------------------------------------
struct VVHash { size_t operator()(const VarVec &v) const { size_t h = v.size(); for (auto x : v) h = h * 1000003u + x; return h; } };
static std::unordered_set<VarVec, VVHash> g_vs;
static const VarVec *internVV(VarVec &&v) { return &*g_vs.insert(std::move(v)).first; }
static const VarVec *g_empty = nullptr;
static std::unordered_map<uint64_t, const VarVec *> g_unionMemo;
static std::unordered_map<const VarVec *, uint32_t> g_vvid;
static uint32_t vvid(const VarVec *p) { auto r = g_vvid.emplace(p, (uint32_t)g_vvid.size()); return r.first->second; }
static const VarVec *unionVV(const VarVec *a, const VarVec *b) {
  if (a == b || b->empty()) return a;
  if (a->empty()) return b;
  uint32_t x = vvid(a), y = vvid(b); if (x > y) std::swap(x, y);
  uint64_t key = ((uint64_t)x << 32) | y;
  auto it = g_unionMemo.find(key); if (it != g_unionMemo.end()) return it->second;
  VarVec r; r.reserve(a->size() + b->size());
  std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
  const VarVec *res = internVV(std::move(r)); g_unionMemo[key] = res; return res;
}

// ---- interning ------------------------------------------------------------
struct Key { Kind k; uint16_t w; uint32_t aux; E a, b, c; u128 v;
  bool operator==(const Key &o) const { return k == o.k && w == o.w && aux == o.aux && a == o.a && b == o.b && c == o.c && v == o.v; } };
struct KeyHash { size_t operator()(const Key &k) const {
  uint64_t h = k.k * 0x9E3779B97F4A7C15ull + k.w; auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; };
  mix(k.aux); mix((uintptr_t)k.a); mix((uintptr_t)k.b); mix((uintptr_t)k.c); mix((uint64_t)k.v); mix((uint64_t)(k.v >> 64)); return h; } };
static std::unordered_map<Key, E, KeyHash> g_tab;
static const s128 SMAX128 = (s128)(~(u128)0 >> 1), SMIN128 = -SMAX128 - 1;
static s128 sminw(unsigned w) { return w >= 128 ? SMIN128 : -((s128)1 << (w - 1)); }
static s128 smaxw(unsigned w) { return w >= 128 ? SMAX128 : ((s128)1 << (w - 1)) - 1; }

static Expr *newNode() {
  static Expr *blk = nullptr; static size_t n = 0;
  if (!n) { blk = (Expr *)malloc(sizeof(Expr) * 4096); n = 4096; }
  Expr *e = blk++; n--; memset((void *)e, 0, sizeof *e); e->id = g_nextId++; return e;
}
static void setURange(Expr *e, u128 lo, u128 hi) { if (lo > e->lo) e->lo = lo; if (hi < e->hi) e->hi = hi; }
static void setSRange(Expr *e, s128 lo, s128 hi) { if (lo > e->slo) e->slo = lo; if (hi < e->shi) e->shi = hi; }
static void syncRanges(Expr *e) {
  unsigned w = e->w; u128 half = (u128)1 << (w - 1);
  for (int i = 0; i < 2; i++) {
    // unsigned -> signed
    if (e->hi < half) setSRange(e, (s128)e->lo, (s128)e->hi);
    else if (e->lo >= half) setSRange(e, sx(e->lo, w), sx(e->hi, w));
    // signed -> unsigned
    if (e->slo >= 0) setURange(e, (u128)e->slo, (u128)e->shi);
    else if (e->shi < 0) setURange(e, (u128)e->slo & maskw(w), (u128)e->shi & maskw(w));
  }
}
static void computeRange(Expr *e) {
  unsigned w = e->w; u128 M = maskw(w);
  e->lo = 0; e->hi = M; e->slo = sminw(w); e->shi = smaxw(w);
  E a = e->a, b = e->b, c = e->c;
  switch (e->k) {
  case K_CONST: e->lo = e->hi = e->v; e->slo = e->shi = sx(e->v, w); return;
  case K_VAR: { auto &vi = g_vars[e->aux]; if (vi.ranged) setSRange(e, vi.lo, vi.hi); break; }
  case K_ADD:
    if (w < 128) {
      u128 l = a->lo + b->lo, h = a->hi + b->hi;
      if (h <= M) setURange(e, l, h);
      else if (l > M) setURange(e, l & M, h & M);
      if (w < 127) { s128 sl = a->slo + b->slo, sh = a->shi + b->shi; if (sl >= sminw(w) && sh <= smaxw(w)) setSRange(e, sl, sh); }
    } break;
  case K_SUB:
    if (w < 127) {
      if (a->lo >= b->hi) setURange(e, a->lo - b->hi, a->hi - b->lo);
      s128 sl = a->slo - b->shi, sh = a->shi - b->slo; if (sl >= sminw(w) && sh <= smaxw(w)) setSRange(e, sl, sh);
    } break;
  case K_MUL:
    if (w <= 64) {
      u128 h = a->hi * b->hi; if (h <= M) setURange(e, a->lo * b->lo, h); // each <= 2^64-1: product < 2^128
      s128 p[4]; bool ok = true;
      if (a->slo < -((s128)1 << 62) || a->shi > ((s128)1 << 62) || b->slo < -((s128)1 << 62) || b->shi > ((s128)1 << 62)) {
        ok = (w <= 32);
      }
      if (ok) { p[0] = a->slo * b->slo; p[1] = a->slo * b->shi; p[2] = a->shi * b->slo; p[3] = a->shi * b->shi;
        s128 mn = *std::min_element(p, p + 4), mx = *std::max_element(p, p + 4);
        if (mn >= sminw(w) && mx <= smaxw(w)) setSRange(e, mn, mx); }
      else if (b->isC() || a->isC()) { // 64-bit const multiply, operand range possibly wide
        E k = a->isC() ? a : b, x = a->isC() ? b : a; s128 kv = sx(k->v, w);
        // |x| <= 2^63, |kv| < 2^63 -> product magnitude <= 2^126
        s128 q0 = x->slo * kv, q1 = x->shi * kv; s128 mn = std::min(q0, q1), mx = std::max(q0, q1);
        if (mn >= sminw(w) && mx <= smaxw(w)) setSRange(e, mn, mx);
      }
    } break;
  case K_UDIV: if (b->isC() && b->v) setURange(e, a->lo / b->v, a->hi / b->v); else if (b->lo) setURange(e, 0, a->hi / b->lo); break;
  case K_UREM: if (b->hi) { if (b->lo) setURange(e, 0, std::min(a->hi, b->hi - 1)); } break;
  case K_SDIV: if (b->isC() && sx(b->v, w) > 0) { s128 d = sx(b->v, w); setSRange(e, a->slo / d, a->shi / d); } break;
  case K_SREM: if (b->isC() && sx(b->v, w) > 0) { s128 d = sx(b->v, w); setSRange(e, a->slo < 0 ? std::max(a->slo, -(d - 1)) : 0, a->shi > 0 ? std::min(a->shi, d - 1) : 0); } break;
  case K_AND: setURange(e, 0, std::min(a->hi, b->hi)); break;
  case K_OR: { setURange(e, std::max(a->lo, b->lo), M); u128 h = a->hi | b->hi; unsigned n = 0; while (n < w && (h >> n)) n++; setURange(e, 0, maskw(n)); if (n == 0) setURange(e, 0, 0); break; }
  case K_XOR: { u128 h = a->hi | b->hi; unsigned n = 0; while (n < w && (h >> n)) n++; setURange(e, 0, n ? maskw(n) : 0); break; }
  case K_NOT: setURange(e, M - a->hi, M - a->lo); break;
  case K_LSHR: setURange(e, 0, a->hi); break;
  case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: break;
  case K_ITE: { u128 l = std::min(b->lo, c->lo), h = std::max(b->hi, c->hi); setURange(e, l, h); setSRange(e, std::min(b->slo, c->slo), std::max(b->shi, c->shi)); break; }
  case K_CONCAT: setURange(e, (a->lo << b->w) | b->lo, (a->hi << b->w) | b->hi); break;
  case K_EXTRACT:
    if (e->aux == 0) { if (a->hi <= M) setURange(e, a->lo, a->hi); if (a->slo >= sminw(w) && a->shi <= smaxw(w)) setSRange(e, a->slo, a->shi); }
    else if (e->aux + w == a->w) setURange(e, a->lo >> e->aux, a->hi >> e->aux);
    else if ((a->hi >> e->aux) <= M) setURange(e, a->lo >> e->aux, a->hi >> e->aux);
    break;
  case K_ZEXT: setURange(e, a->lo, a->hi); break;
  case K_SEXT: setSRange(e, a->slo, a->shi); break;
  default: break;
  }
  syncRanges(e);
}
static unsigned tzOf(u128 v, unsigned w) { unsigned n = 0; while (n < w && !((v >> n) & 1)) n++; return n; }
static uint8_t computeTz(const Expr *e) {
  E a = e->a, b = e->b; unsigned w = e->w;
  switch (e->k) {
  case K_CONST: return tzOf(e->v, w);
  case K_ADD: case K_SUB: case K_OR: case K_XOR: return std::min(a->tz, b->tz);
  case K_AND: return std::max(a->tz, b->tz);
  case K_MUL: return std::min<unsigned>(w, a->tz + b->tz);
  case K_CONCAT: return b->tz < b->w ? b->tz : b->w + a->tz;
  case K_ITE: return std::min(e->b->tz, e->c->tz);
  case K_ZEXT: case K_SEXT: return a->tz < a->w ? a->tz : (e->k == K_ZEXT ? w : w);
  case K_EXTRACT: return a->tz > e->aux ? std::min<unsigned>(w, a->tz - e->aux) : 0;
  case K_SHL: return a->tz;
  default: return 0;
  }
}
static E mk(Kind k, unsigned w, E a = 0, E b = 0, E c = 0, uint32_t aux = 0, u128 v = 0) {
  Key key{k, (uint16_t)w, aux, a, b, c, v};
  auto it = g_tab.find(key); if (it != g_tab.end()) return it->second;
  Expr *e = newNode(); e->k = k; e->w = w; e->aux = aux; e->a = a; e->b = b; e->c = c; e->v = v;
  if (!g_empty) g_empty = internVV(VarVec());
  if (k == K_VAR) e->vars = internVV(VarVec{aux});
  else { e->vars = g_empty; if (a) e->vars = unionVV(e->vars, a->vars); if (b) e->vars = unionVV(e->vars, b->vars); if (c) e->vars = unionVV(e->vars, c->vars); }
  computeRange(e); e->tz = computeTz(e);
  auto fl = [&](bool Expr::*m) { return (a && a->*m) || (b && b->*m) || (c && c->*m); };
  e->hasfp = fl(&Expr::hasfp) || k >= K_FADD;
  e->hasdiv = fl(&Expr::hasdiv) || (w >= 16 && (k == K_UDIV || k == K_SDIV || k == K_UREM || k == K_SREM));
  e->hasmul = fl(&Expr::hasmul) || (w >= 32 && k == K_MUL);
  g_tab.emplace(key, e);
  if (k != K_CONST && e->lo == e->hi) return mkC(e->lo, w);
  return e;
}
E mkC(u128 v, unsigned w) {
  v &= maskw(w);
  if (v < 256 && w <= 64) { static E cache[65][256]; E &c = cache[w][(unsigned)v]; if (!c) c = mk(K_CONST, w, 0, 0, 0, 0, v); return c; }
  return mk(K_CONST, w, 0, 0, 0, 0, v);
}
E mkVar(const std::string &name, unsigned w) {
  uint32_t idx = g_vars.size(); g_vars.push_back({name, w, false, 0, 0, nullptr});
  E e = mk(K_VAR, w, 0, 0, 0, idx); g_vars[idx].e = e; return e;
}
E mkRangedVar(const std::string &name, unsigned w, s128 lo, s128 hi) {
  if (lo == hi) return mkC((u128)lo, w);
  // narrowest signed width that holds the range: keeps bit-blasted arithmetic small
  unsigned n = 2; while (n < w && (lo < sminw(n) || hi > smaxw(n))) n++;
  if (n < w) return mkSExt(mkRangedVar(name, n, lo, hi), w);
  uint32_t idx = g_vars.size(); g_vars.push_back({name, w, true, lo, hi, nullptr});
  E e = mk(K_VAR, w, 0, 0, 0, idx); g_vars[idx].e = e; return e;
}
static inline bool allOnes(E e) { return e->isC() && e->v == maskw(e->w); }
static inline bool isZ(E e) { return e->isC() && e->v == 0; }

static bool cheapBelow(E x) { return x->isC() || x->k == K_ITE; }
// push a unary/binary-with-constant op through an ITE with constant leaves
static bool iteConstArms(E e, int d = 0) { return e->k == K_ITE && ((e->b->isC()) || (d < 6 && iteConstArms(e->b, d + 1))) && (e->c->isC() || (d < 6 && iteConstArms(e->c, d + 1))); }
template <class F> static E mapIte(E e, F f) { if (e->isC()) return f(e); return mkIte(e->a, mapIte(e->b, f), mapIte(e->c, f)); }

// ---- linear forms ---------------------------------------------------------
// The signed value of an expression as c0 + sum ci * signed(atom_i) over the integers (no wrap-around).
struct Lin { s128 c0 = 0; std::vector<std::pair<E, s128>> t; bool ok = true; };
static const s128 LCAP = (s128)1 << 62; static const s128 RCAP = (s128)1 << 120; static const size_t LTERMS = 28;
static std::unordered_map<E, Lin> g_lin;
static Lin linAtom(E e) { Lin l; l.t.push_back({e, 1}); return l; }
static Lin linScale(const Lin &a, s128 k) {
  Lin r; if (!a.ok || k > LCAP || k < -LCAP) { r.ok = false; return r; }
  auto mul = [&](s128 x) { s128 p; if (x > RCAP || x < -RCAP || __builtin_mul_overflow(x, k, &p) || p > RCAP || p < -RCAP) { r.ok = false; return (s128)0; } return p; };
  r.c0 = mul(a.c0); if (k) for (auto &x : a.t) r.t.push_back({x.first, mul(x.second)});
  return r;
}
static Lin linAdd(const Lin &a, const Lin &b) {
  Lin r; r.ok = a.ok && b.ok; if (!r.ok) return r; r.c0 = a.c0 + b.c0;
  size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    if (j == b.t.size() || (i < a.t.size() && a.t[i].first->id < b.t[j].first->id)) r.t.push_back(a.t[i++]);
    else if (i == a.t.size() || b.t[j].first->id < a.t[i].first->id) r.t.push_back(b.t[j++]);
    else { s128 c = a.t[i].second + b.t[j].second; if (c) r.t.push_back({a.t[i].first, c}); i++; j++; }
  }
  for (auto &x : r.t) if (x.second > RCAP || x.second < -RCAP) r.ok = false;
  if (r.c0 > RCAP || r.c0 < -RCAP || r.t.size() > LTERMS) r.ok = false;
  return r;
}
static bool linRange(const Lin &l, s128 &L, s128 &H) {
  if (!l.ok) return false; L = H = l.c0;
  for (auto &x : l.t) { s128 p, q; if (__builtin_mul_overflow(x.second, x.first->slo, &p) || __builtin_mul_overflow(x.second, x.first->shi, &q)) return false;
    s128 lo = std::min(p, q), hi = std::max(p, q); if (lo < -RCAP || hi > RCAP) return false; L += lo; H += hi; if (L < -RCAP || H > RCAP) return false; }
  return true;
}
static const Lin &linS(E e) {
  auto it = g_lin.find(e); if (it != g_lin.end()) return it->second;
  Lin r; unsigned w = e->w; r.ok = false; bool exact = false;
  auto fits = [&](s128 lo, s128 hi) { return lo >= sminw(w) && hi <= smaxw(w); };
  if (w > 64 || w < 2) { r = linAtom(e); return g_lin[e] = r; }
  switch (e->k) {
  case K_CONST: r = Lin(); r.c0 = sx(e->v, w); exact = true; break;
  case K_ADD: { Lin a = linS(e->a), b = linS(e->b); exact = fits(e->a->slo + e->b->slo, e->a->shi + e->b->shi); r = linAdd(a, b); break; }
  case K_SUB: { Lin a = linS(e->a), b = linS(e->b); exact = fits(e->a->slo - e->b->shi, e->a->shi - e->b->slo); r = linAdd(a, linScale(b, -1)); break; }
  case K_MUL: if (e->a->isC()) { Lin b = linS(e->b); r = linScale(b, sx(e->a->v, w)); } break;
  case K_SEXT: r = linS(e->a); exact = true; break;
  case K_ZEXT: if (e->a->slo >= 0) { r = linS(e->a); exact = true; } break;
  case K_EXTRACT: if (e->aux == 0 && e->a->w <= 64) { r = linS(e->a); exact = fits(e->a->slo, e->a->shi); } break;
  case K_CONCAT: if (e->b->w < 62 && e->b->slo >= 0) { Lin a = linS(e->a), b = linS(e->b); r = linAdd(linScale(a, (s128)1 << e->b->w), b); exact = true; } break;
  default: break;
  }
  if (r.ok && !exact) { s128 L, H; exact = linRange(r, L, H) && fits(L, H); }
  if (!r.ok || !exact) r = linAtom(e);
  return g_lin[e] = r;
}
static E extTo(E a, unsigned w) { return a->w < w ? mkSExt(a, w) : mkTrunc(a, w); }
static E linBuild(const Lin &l, unsigned w) { // the form modulo 2^w
  E pos = nullptr, neg = nullptr;
  for (auto &x : l.t) { bool n = x.second < 0; E m = mkMul(mkC((u128)(n ? -x.second : x.second), w), extTo(x.first, w)); E &d = n ? neg : pos; d = d ? mkAdd(d, m) : m; }
  E r = pos ? pos : mkC(0, w); if (neg) r = mkSub(r, neg);
  return mkAdd(mkC((u128)l.c0, w), r);
}
static s128 fdiv(s128 a, s128 b) { s128 q = a / b; return (a % b != 0 && (a < 0) != (b < 0)) ? q - 1 : q; }
static s128 gcd128(s128 a, s128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { s128 t = a % b; a = b; b = t; } return a; }
// quotient (rem=false) or remainder of a non-negative value by a positive constant, when the linear form splits; null otherwise
static int g_lind = 0; struct LinD { LinD() { g_lind++; } ~LinD() { g_lind--; } };
static E linDivRem(E a, u128 C0, bool rem, bool known = false) {
  LinD g_; if (g_lind > 6) return nullptr;
  if (a->w > 64 || (a->slo < 0 && !known) || C0 > (u128)LCAP) return nullptr;
  const Lin &f = linS(a); if (!f.ok || (f.t.size() == 1 && f.t[0].first == a) || f.t.empty()) return nullptr;
  s128 C = (s128)C0; unsigned w = a->w;
  auto split = [&](s128 g, Lin &q, Lin &rest) { // f = g*q + rest with 0 <= rest < g
    q = Lin(); rest = Lin(); rest.c0 = f.c0;
    for (auto &x : f.t) { if (x.second % g == 0) q.t.push_back({x.first, x.second / g}); else rest.t.push_back(x); }
    s128 L, H; if (!linRange(rest, L, H)) return false;
    s128 k = fdiv(L, g); if (fdiv(H, g) != k) return false;
    q.c0 = k; rest.c0 -= k * g; return true;
  };
  Lin q, rest;
  if (split(C, q, rest)) return linBuild(rem ? rest : q, w);
  s128 best = 1;
  for (auto &x : f.t) { s128 g = gcd128(C, x.second); if (g > best && split(g, q, rest)) best = g; }
  if (best == 1) { // common factors of several terms
    for (auto &x : f.t) for (auto &y : f.t) { s128 g = gcd128(C, gcd128(x.second, y.second)); if (g > best && split(g, q, rest)) best = g; }
  }
  if (best == 1) return nullptr;
  split(best, q, rest);
  E qe = linBuild(q, w), Cg = mkC((u128)(C / best), w);
  // q is non-negative because a is
  if (!(qe->slo >= 0) && !known) return nullptr;
  if (!rem) return mkUDiv(qe, Cg);
  return mkAdd(mkMul(mkC((u128)best, w), mkURem(qe, Cg)), linBuild(rest, w));
}
// sum or difference whose terms partly cancel
static E linCombine(E a, E b, bool sub) {
  LinD g_; if (g_lind > 6) return nullptr;
  unsigned w = a->w; if (w < 8 || w > 64 || a->isC() || b->isC()) return nullptr;
  const Lin la = linS(a), lb = linS(b); if (!la.ok || !lb.ok) return nullptr;
  if (la.t.size() == 1 && la.t[0].first == a && lb.t.size() == 1 && lb.t[0].first == b) return nullptr;
  Lin r = linAdd(la, sub ? linScale(lb, -1) : lb);
  if (!r.ok || r.t.size() + 2 > la.t.size() + lb.t.size()) return nullptr; // at least one atom gone altogether
  return linBuild(r, w);
}
// comparison through the difference of the two linear forms: -1 unknown, else 0/1
enum { LC_EQ, LC_LT };
static E linCmp(E a, E b, int op) {
  LinD g_; if (g_lind > 6) return nullptr;
  unsigned w = a->w; if (w < 8 || w > 64) return nullptr;
  const Lin la = linS(a), lb = linS(b); if (!la.ok || !lb.ok) return nullptr;
  auto triv = [](const Lin &l) { return l.t.empty() || (l.t.size() == 1 && l.t[0].second == 1 && l.c0 == 0); }; bool ta = triv(la), tb = triv(lb);
  if (ta && tb) return nullptr;
  Lin d = linAdd(la, linScale(lb, -1)); s128 L, H; if (!linRange(d, L, H)) return nullptr;
  if (op == LC_EQ) {
    if (L > 0 || H < 0) return mkC(0, 1); if (d.t.empty()) return mkC(d.c0 == 0, 1);
    s128 g = 0; for (auto &x : d.t) g = gcd128(g, x.second); if (d.c0 % g != 0) return mkC(0, 1);
    if (d.t.size() == 1) { E x = d.t[0].first; s128 v = -d.c0 / d.t[0].second; if (v < sminw(x->w) || v > smaxw(x->w)) return mkC(0, 1); return mkEq(mkC((u128)v, x->w), x); }
    if (d.t.size() == 2 && d.t[0].second == -d.t[1].second && d.c0 == 0) { E x = d.t[0].first, y = d.t[1].first; unsigned m = std::max(x->w, y->w); return mkEq(extTo(x, m), extTo(y, m)); }
    if (L == 0 || H == 0) { E r = mkC(1, 1); for (auto &x : d.t) { bool low = (L == 0) == (x.second > 0); r = mkAnd(r, mkEq(mkC((u128)(low ? x.first->slo : x.first->shi), x.first->w), x.first)); } return r; } // only with every term at its end
  } else {
    if (H < 0) return mkC(1, 1); if (L >= 0) return mkC(0, 1); if (d.t.empty()) return mkC(d.c0 < 0, 1);
    if (d.t.size() == 1) { E x = d.t[0].first; s128 k = d.t[0].second; // k*x + c0 < 0
      if (k > 0) { s128 v = fdiv(-d.c0 - 1, k); /* x <= v */ if (v < x->slo) return mkC(0, 1); if (v >= x->shi) return mkC(1, 1); return mkSle(x, mkC((u128)v, x->w)); }
      s128 v = fdiv(d.c0, -k) + 1; /* x >= v */ if (v > x->shi) return mkC(0, 1); if (v <= x->slo) return mkC(1, 1); return mkSle(mkC((u128)v, x->w), x); }
    if (d.t.size() == 2 && d.t[0].second == -d.t[1].second && d.c0 == 0) { E x = d.t[0].first, y = d.t[1].first; unsigned m = std::max(x->w, y->w); if (d.t[0].second < 0) std::swap(x, y); return mkSlt(extTo(x, m), extTo(y, m)); }
  }
  return nullptr;
}

E mkAdd(E a, E b) {
  assert(a->w == b->w); unsigned w = a->w;
  if (a->isC() && b->isC()) return mkC(a->v + b->v, w);
  if (b->isC()) std::swap(a, b);
  if (isZ(a)) return b;
  if (w == 1) return mkXor(a, b);
  if (a->isC()) {
    if (b->k == K_ADD && b->a->isC()) return mkAdd(mkC(a->v + b->a->v, w), b->b);
    if (b->k == K_SUB && b->a->isC()) return mkSub(mkC(a->v + b->a->v, w), b->b);
    if (iteConstArms(b)) return mapIte(b, [&](E x) { return mkAdd(a, x); });
  } else {
    if (a->k == K_ADD && a->a->isC()) return mkAdd(a->a, mkAdd(a->b, b));
    if (b->k == K_ADD && b->a->isC()) return mkAdd(b->a, mkAdd(a, b->b));
    if (a->k == K_SUB && a->b == b) return a->a;
    if (b->k == K_SUB && b->b == a) return b->a;
    if (a->k == K_SUB && a->a->isC() && a->b != b) { return mkAdd(a->a, mkSub(b, a->b)); }
    if (E r = linCombine(a, b, false)) return r;
    if (a->id > b->id) std::swap(a, b);
  }
  return mk(K_ADD, w, a, b);
}
E mkSub(E a, E b) {
  assert(a->w == b->w); unsigned w = a->w;
  if (a == b) return mkC(0, w);
  if (b->isC()) return mkAdd(mkC(-b->v, w), a);
  if (w == 1) return mkXor(a, b);
  if (a->k == K_ADD && a->a->isC()) { if (a->b == b) return a->a; if (b->k == K_ADD && b->a->isC()) return mkAdd(mkC(a->a->v - b->a->v, w), mkSub(a->b, b->b)); return mkAdd(a->a, mkSub(a->b, b)); }
  if (b->k == K_ADD && b->a->isC()) return mkAdd(mkC(-b->a->v, w), mkSub(a, b->b));
  if (a->k == K_ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
  if (b->k == K_MUL) for (int i = 0; i < 2; i++) { E d = i ? b->b : b->a, y = i ? b->a : b->b; if ((d->k == K_SDIV || d->k == K_UDIV) && d->a == a && d->b == y) return d->k == K_SDIV ? mkSRem(a, y) : mkURem(a, y); }
  if (b->k == K_ADD) { if (b->a == a) return mkSub(mkC(0, w), b->b); if (b->b == a) return mkSub(mkC(0, w), b->a); }
  if (b->k == K_SUB && isZ(b->a)) return mkAdd(a, b->b);
  if (b->k == K_SUB && b->a == a) return b->b;
  if (a->isC() && iteConstArms(b)) return mapIte(b, [&](E x) { return mkSub(a, x); });
  if (E r = linCombine(a, b, true)) return r;
  return mk(K_SUB, w, a, b);
}
E mkMul(E a, E b) {
  assert(a->w == b->w); unsigned w = a->w;
  if (a->isC() && b->isC()) return mkC(a->v * b->v, w);
  if (b->isC()) std::swap(a, b);
  if (w == 1) return mkAnd(a, b);
  if (a->isC()) {
    if (a->v == 0) return a;
    if (a->v == 1) return b;
    if (allOnes(a)) return mkSub(mkC(0, w), b);
    if (b->k == K_MUL && b->a->isC()) return mkMul(mkC(a->v * b->a->v, w), b->b);
    if (b->k == K_ADD && b->a->isC()) return mkAdd(mkC(a->v * b->a->v, w), mkMul(a, b->b));
    if (iteConstArms(b)) return mapIte(b, [&](E x) { return mkMul(a, x); });
  } else if (a->id > b->id) std::swap(a, b);
  return mk(K_MUL, w, a, b);
}
static int log2u(u128 v) { if (!v || (v & (v - 1))) return -1; int n = 0; while (!((v >> n) & 1)) n++; return n; }
E mkUDiv(E a, E b) {
  unsigned w = a->w;
  if (a->isC() && b->isC() && b->v) return mkC(a->v / b->v, w);
  if (b->isC() && b->v) {
    if (b->v > 1) if (E r = linDivRem(a, b->v, false)) return r;
    int k = log2u(b->v); if (k >= 0) return mkLShr(a, mkC(k, w));
    if (a->hi < b->v) return mkC(0, w);
    if (a->k == K_UDIV && a->b->isC() && a->b->v && a->b->v <= maskw(w) / b->v) return mkUDiv(a->a, mkC(a->b->v * b->v, w));
    if (E r = linDivRem(a, b->v, false)) return r;
    { u128 h = std::max(a->hi, b->v); unsigned n = 1; while (n < w && (h >> n)) n++; if (n + 3 < w && a->k != K_ZEXT && w <= 64) return mkZExt(mkUDiv(mkExtract(a, 0, n), mkC(b->v, n)), w); }
    if (a->k == K_ZEXT && b->v <= maskw(a->a->w)) return mkZExt(mkUDiv(a->a, mkTrunc(b, a->a->w)), w);
  }
  return mk(K_UDIV, w, a, b);
}
E mkURem(E a, E b) {
  unsigned w = a->w;
  if (a->isC() && b->isC() && b->v) return mkC(a->v % b->v, w);
  if (b->isC() && b->v) {
    if (b->v > 1) if (E r = linDivRem(a, b->v, true)) return r;
    if (log2u(b->v) >= 0) return mkAnd(a, mkC(b->v - 1, w));
    if (a->hi < b->v) return a;
    if (E r = linDivRem(a, b->v, true)) return r;
    { u128 h = std::max(a->hi, b->v); unsigned n = 1; while (n < w && (h >> n)) n++; if (n + 3 < w && a->k != K_ZEXT && w <= 64) return mkZExt(mkURem(mkExtract(a, 0, n), mkC(b->v, n)), w); }
    if (a->k == K_ZEXT && b->v <= maskw(a->a->w)) return mkZExt(mkURem(a->a, mkTrunc(b, a->a->w)), w);
  }
  return mk(K_UREM, w, a, b);
}
// signed quotient/remainder by a positive constant of a value whose sign is known to the caller; null when no linear form splits
E mkSDivRemKnown(E a, E b, bool neg, bool rem) {
  unsigned w = a->w; if (!b->isC() || sx(b->v, w) <= 1 || w > 64) return nullptr;
  E n = a; if (neg) { n = mkSub(mkC(0, w), a); s128 L, H; if (n->slo <= sminw(w) && !(linRange(linS(n), L, H) && L > sminw(w))) return nullptr; } // the negation of the least value is no magnitude
  E r = linDivRem(n, b->v, rem, true); if (!r) return nullptr;
  return neg ? mkSub(mkC(0, w), r) : r;
}
E mkSDiv(E a, E b) {
  unsigned w = a->w;
  if (a->isC() && b->isC() && b->v) { s128 x = sx(a->v, w), y = sx(b->v, w); if (y == -1) return mkC(-(u128)x, w); return mkC((u128)(x / y), w); }
  if (a->slo >= 0 && b->slo >= 0) return mkUDiv(a, b);
  if (b->isC() && b->v == 1) return a;
  if (b->isC() && sx(b->v, w) > 0) { s128 d = sx(b->v, w); if (a->slo > -d && a->shi < d) return mkC(0, w); }
  if (w <= 64 && b->isC() && sx(b->v, w) > 0 && a->shi <= 0 && a->slo > sminw(w)) return mkSub(mkC(0, w), mkUDiv(mkSub(mkC(0, w), a), b));
  if (a->k == K_SEXT && b->isC() && b->v && sx(b->v, w) != -1 && sx(b->v, w) >= sminw(a->a->w) && sx(b->v, w) <= smaxw(a->a->w)) return mkSExt(mkSDiv(a->a, mkTrunc(b, a->a->w)), w);
  return mk(K_SDIV, w, a, b);
}
E mkSRem(E a, E b) {
  unsigned w = a->w;
  if (a->isC() && b->isC() && b->v) { s128 x = sx(a->v, w), y = sx(b->v, w); if (y == -1) return mkC(0, w); return mkC((u128)(x % y), w); }
  if (a->slo >= 0 && b->slo >= 0) return mkURem(a, b);
  if (b->isC() && (b->v == 1)) return mkC(0, w);
  if (b->isC() && sx(b->v, w) > 0) { s128 d = sx(b->v, w); if (a->slo > -d && a->shi < d) return a; }
  if (w <= 64 && b->isC() && sx(b->v, w) > 0 && a->shi <= 0 && a->slo > sminw(w)) return mkSub(mkC(0, w), mkURem(mkSub(mkC(0, w), a), b));
  if (a->k == K_SEXT && b->isC() && b->v && sx(b->v, w) != -1 && sx(b->v, w) >= sminw(a->a->w) && sx(b->v, w) <= smaxw(a->a->w)) return mkSExt(mkSRem(a->a, mkTrunc(b, a->a->w)), w);
  return mk(K_SREM, w, a, b);
}
E mkNot(E a) {
  if (a->isC()) return mkC(~a->v, a->w);
  if (a->k == K_NOT) return a->a;
  if (a->w == 1) {
    if (a->k == K_ULT) return mkUle(a->b, a->a);
    if (a->k == K_ULE) return mkUlt(a->b, a->a);
    if (a->k == K_SLT) return mkSle(a->b, a->a);
    if (a->k == K_SLE) return mkSlt(a->b, a->a);
    if (a->k == K_ITE) return mkIte(a->a, mkNot(a->b), mkNot(a->c));
  }
  return mk(K_NOT, a->w, a);
}
E mkAnd(E a, E b) {
  assert(a->w == b->w); unsigned w = a->w;
  if (a->isC() && b->isC()) return mkC(a->v & b->v, w);
  if (a == b) return a;
  if (b->isC()) std::swap(a, b);
  if (a->isC()) {
    if (a->v == 0) return a;
    if (allOnes(a)) return b;
    unsigned n = 0; while (n < w && ((a->v >> n) & 1)) n++;
    if (n && (a->v >> n) == 0) return mkZExt(mkExtract(b, 0, n), w);
    if (b->k == K_AND && b->a->isC()) return mkAnd(mkC(a->v & b->a->v, w), b->b);
    unsigned z = tzOf(a->v, w); // contiguous mask in the middle
    u128 sh = a->v >> z; if (z && !((sh) & (sh + 1))) { unsigned n2 = 0; while ((sh >> n2) & 1) n2++; E x = mkExtract(b, z, n2); x = mkConcat(x, mkC(0, z)); return mkZExt(x, w); }
    if (b->k == K_ZEXT) return mkZExt(mkAnd(mkTrunc(a, b->a->w), b->a), w);
  } else {
    if (w == 1) {
      if (a->k == K_NOT && a->a == b) return mkC(0, 1);
      if (b->k == K_NOT && b->a == a) return mkC(0, 1);
      if (mkNot(a) == b) return mkC(0, 1);
      if (b->k == K_AND && (b->a == a || b->b == a)) return b;
      if (a->k == K_AND && (a->a == b || a->b == b)) return a;
    }
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkZExt(mkAnd(a->a, b->a), w);
    if (a->id > b->id) std::swap(a, b);
  }
  return mk(K_AND, w, a, b);
}
E mkOr(E a, E b) {
  assert(a->w == b->w); unsigned w = a->w;
  if (a->isC() && b->isC()) return mkC(a->v | b->v, w);
  if (a == b) return a;
  if (b->isC()) std::swap(a, b);
  if (a->isC()) {
    if (a->v == 0) return b;
    if (allOnes(a)) return a;
  } else {
    if (w == 1) {
      if (mkNot(a) == b) return mkC(1, 1);
      if (b->k == K_OR && (b->a == a || b->b == a)) return b;
      if (a->k == K_OR && (a->a == b || a->b == b)) return a;
    }
    // disjoint bits: (x << k) | zext(y)  -> concat
    E x = a, y = b; if (x->tz == 0) std::swap(x, y);
    if (w <= 128 && x->tz > 0 && x->k == K_CONCAT && isZ(x->b) && (y->hi >> x->b->w) == 0) return mkConcat(x->a, mkExtract(y, 0, x->b->w));
    if (x->tz > 0 && x->k == K_ZEXT && x->a->k == K_CONCAT && isZ(x->a->b) && (y->hi >> x->a->b->w) == 0) return mkZExt(mkConcat(x->a->a, mkExtract(y, 0, x->a->b->w)), w);
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkZExt(mkOr(a->a, b->a), w);
    if (a->id > b->id) std::swap(a, b);
  }
  return mk(K_OR, w, a, b);
}
E mkXor(E a, E b) {
  assert(a->w == b->w); unsigned w = a->w;
  if (a->isC() && b->isC()) return mkC(a->v ^ b->v, w);
  if (a == b) return mkC(0, w);
  if (b->isC()) std::swap(a, b);
  if (a->isC()) { if (a->v == 0) return b; if (allOnes(a)) return mkNot(b);
    if (b->k == K_XOR && b->a->isC()) return mkXor(mkC(a->v ^ b->a->v, w), b->b); }
  else if (a->id > b->id) std::swap(a, b);
  return mk(K_XOR, w, a, b);
}
E mkShl(E a, E b) {
  unsigned w = a->w;
  if (b->isC()) {
    u128 s = b->v; if (s >= w) return mkC(0, w);
    if (a->isC()) return mkC(a->v << (unsigned)s, w);
    if (s == 0) return a;
    return mkConcat(mkExtract(a, 0, w - (unsigned)s), mkC(0, (unsigned)s));
  }
  if (iteConstArms(b)) return mapIte(b, [&](E x) { return mkShl(a, x); });
  return mk(K_SHL, w, a, b);
}
E mkLShr(E a, E b) {
  unsigned w = a->w;
  if (b->isC()) { u128 s = b->v; if (s >= w) return mkC(0, w); if (a->isC()) return mkC(a->v >> (unsigned)s, w); if (!s) return a; if (s < 62) if (E r = linDivRem(a, (u128)1 << (unsigned)s, false)) return r;
    return mkZExt(mkExtract(a, (unsigned)s, w - (unsigned)s), w); }
  if (iteConstArms(b)) return mapIte(b, [&](E x) { return mkLShr(a, x); });
  return mk(K_LSHR, w, a, b);
}
E mkAShr(E a, E b) {
  unsigned w = a->w;
  if (b->isC()) { u128 s = b->v; if (s >= w) s = w - 1; if (a->isC()) return mkC((u128)(sx(a->v, w) >> (unsigned)s), w); if (!s) return a; if (a->slo >= 0) return mkLShr(a, b);
    return mkSExt(mkExtract(a, (unsigned)s, w - (unsigned)s), w); }
  if (iteConstArms(b)) return mapIte(b, [&](E x) { return mkAShr(a, x); });
  return mk(K_ASHR, w, a, b);
}
E mkEq(E a, E b) {
  assert(a->w == b->w); unsigned w = a->w;
  if (a == b) return mkC(1, 1);
  if (a->isC() && b->isC()) return mkC(a->v == b->v, 1);
  if (b->isC()) std::swap(a, b);
  if (a->hi < b->lo || b->hi < a->lo || a->shi < b->slo || b->shi < a->slo) return mkC(0, 1);
  if (w == 1) { if (a->isC()) return a->v ? b : mkNot(b); if (mkNot(a) == b) return mkC(0, 1); }
  if (E r = linCmp(a, b, LC_EQ)) return r;
  if (a->isC()) {
    switch (b->k) {
    case K_ADD: if (b->a->isC()) return mkEq(mkC(a->v - b->a->v, w), b->b); break;
    case K_SUB: if (b->a->isC()) return mkEq(mkC(b->a->v - a->v, w), b->b); if (a->v == 0) return mkEq(b->a, b->b); break;
    case K_ZEXT: if (a->v > maskw(b->a->w)) return mkC(0, 1); return mkEq(mkC(a->v, b->a->w), b->a);
    case K_SEXT: { s128 s = sx(a->v, w); if (s < sminw(b->a->w) || s > smaxw(b->a->w)) return mkC(0, 1); return mkEq(mkC(a->v, b->a->w), b->a); }
    case K_NOT: return mkEq(mkC(~a->v, w), b->a);
    case K_XOR: if (b->a->isC()) return mkEq(mkC(a->v ^ b->a->v, w), b->b); break;
    case K_CONCAT: return mkAnd(mkEq(mkC(a->v >> b->b->w, b->a->w), b->a), mkEq(mkC(a->v, b->b->w), b->b));
    case K_ITE:
      if (b->b->isC() || b->c->isC() || (b->b->k == K_ITE && iteConstArms(b->b)) || (b->c->k == K_ITE && iteConstArms(b->c))) {
        E t = mkEq(a, b->b), f = mkEq(a, b->c); return mkIte(b->a, t, f);
      } break;
    case K_MUL: if (b->a->isC() && (b->a->v & 1) == 0 && tzOf(a->v, w) < b->a->tz) return mkC(0, 1); break;
    default: break;
    }
    if (b->tz > tzOf(a->v, w)) return mkC(0, 1);
  } else {
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->k == K_ADD && a->a->isC() && b->k == K_ADD && b->a->isC()) return mkEq(mkAdd(mkC(a->a->v - b->a->v, w), a->b), b->b);
    if (a->k == K_ADD && (a->b == b)) return mkEq(mkC(0, w), a->a);
    if (a->k == K_ADD && (a->a == b)) return mkEq(mkC(0, w), a->b);
    if (b->k == K_ADD && (b->b == a)) return mkEq(mkC(0, w), b->a);
    if (b->k == K_ADD && (b->a == a)) return mkEq(mkC(0, w), b->b);
    if (a->k == K_ITE && b->k == K_ITE && a->a == b->a) return mkIte(a->a, mkEq(a->b, b->b), mkEq(a->c, b->c));
    if (a->k == K_ITE && (a->b == b || a->c == b)) return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
    if (b->k == K_ITE && (b->b == a || b->c == a)) return mkIte(b->a, mkEq(b->b, a), mkEq(b->c, a));
    if (a->id > b->id) std::swap(a, b);
  }
  return mk(K_EQ, 1, a, b);
}
E mkUlt(E a, E b) {
  assert(a->w == b->w); unsigned w = a->w;
  if (a == b) return mkC(0, 1);
  if (a->hi < b->lo) return mkC(1, 1);
  if (a->lo >= b->hi) return mkC(0, 1);
  if (w == 1) return mkAnd(mkNot(a), b);
  if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkUlt(a->a, b->a);
  if (a->isC() && b->k == K_ZEXT) return mkUlt(mkTrunc(a, b->a->w), b->a);
  if (b->isC() && a->k == K_ZEXT) return mkUlt(a->a, mkTrunc(b, a->a->w));
  if (b->isC() && b->v == 1) return mkEq(a, mkC(0, w));
  if (a->isC() && a->v == 0) return mkNot(mkEq(b, a));
  if (a->isC() && iteConstArms(b)) return mapIte(b, [&](E x) { return mkUlt(a, x); });
  if (b->isC() && iteConstArms(a)) return mapIte(a, [&](E x) { return mkUlt(x, b); });
  if (a->slo >= 0 && b->slo >= 0) if (E r = linCmp(a, b, LC_LT)) return r;
  return mk(K_ULT, 1, a, b);
}
E mkUle(E a, E b) {
  assert(a->w == b->w); unsigned w = a->w;
  if (a == b) return mkC(1, 1);
  if (a->hi <= b->lo) return mkC(1, 1);
  if (a->lo > b->hi) return mkC(0, 1);
  if (w == 1) return mkOr(mkNot(a), b);
  if (b->isC()) return mkUlt(a, mkC(b->v + 1, w)); // b != max because of range test above
  if (a->isC()) return mkUlt(mkC(a->v - 1, w), b);
  if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkUle(a->a, b->a);
  if (a->slo >= 0 && b->slo >= 0) if (E r = linCmp(b, a, LC_LT)) return mkNot(r);
  return mk(K_ULE, 1, a, b);
}
E mkSlt(E a, E b) {
  assert(a->w == b->w); unsigned w = a->w;
  if (a == b) return mkC(0, 1);
  if (a->shi < b->slo) return mkC(1, 1);
  if (a->slo >= b->shi) return mkC(0, 1);
  if (w == 1) return mkAnd(a, mkNot(b));
  if (a->slo >= 0 && b->slo >= 0) return mkUlt(a, b);
  if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkSlt(a->a, b->a);
  if (a->isC() && b->k == K_SEXT && a->slo >= sminw(b->a->w) && a->slo <= smaxw(b->a->w)) return mkSlt(mkTrunc(a, b->a->w), b->a);
  if (b->isC() && a->k == K_SEXT && b->slo >= sminw(a->a->w) && b->slo <= smaxw(a->a->w)) return mkSlt(a->a, mkTrunc(b, a->a->w));
  if (a->isC() && iteConstArms(b)) return mapIte(b, [&](E x) { return mkSlt(a, x); });
  if (b->isC() && iteConstArms(a)) return mapIte(a, [&](E x) { return mkSlt(x, b); });
  if (E r = linCmp(a, b, LC_LT)) return r;
  return mk(K_SLT, 1, a, b);
}
E mkSle(E a, E b) {
  assert(a->w == b->w); unsigned w = a->w;
  if (a == b) return mkC(1, 1);
  if (a->shi <= b->slo) return mkC(1, 1);
  if (a->slo > b->shi) return mkC(0, 1);
  if (w == 1) return mkOr(mkNot(b), a) == mkC(1, 1) ? mkC(1, 1) : mkOr(a, mkNot(b));
  if (a->slo >= 0 && b->slo >= 0) return mkUle(a, b);
  if (b->isC()) return mkSlt(a, mkC(b->v + 1, w));
  if (a->isC()) return mkSlt(mkC(a->v - 1, w), b);
  if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkSle(a->a, b->a);
  if (E r = linCmp(b, a, LC_LT)) return mkNot(r);
  return mk(K_SLE, 1, a, b);
}
E mkIte(E c, E a, E b) {
  assert(a->w == b->w);
  if (c->isC()) return c->v ? a : b;
  if (a == b) return a;
  if (c->k == K_NOT) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (a->isC() && b->isC()) return a->v ? c : mkNot(c);
    if (a->isC()) return a->v ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (b->isC()) return b->v ? mkOr(mkNot(c), a) : mkAnd(c, a);
    if (a == c) return mkOr(c, b);
    if (b == c) return mkAnd(c, a);
  }
  if (a->k == K_ITE && a->a == c) return mkIte(c, a->b, b);
  if (b->k == K_ITE && b->a == c) return mkIte(c, a, b->c);
  if (b->k == K_ITE && b->b == a) return mkIte(mkOr(c, b->a), a, b->c);
  if (a->k == K_ITE && a->c == b) return mkIte(mkAnd(c, a->a), a->b, b);
  if (c->k == K_EQ && c->a->isC() && c->b == b && a == c->a) return b;
  return mk(K_ITE, a->w, c, a, b);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w; assert(w <= 128);
  if (hi->isC() && lo->isC()) return mkC((hi->v << lo->w) | lo->v, w);
  if (isZ(hi)) return mkZExt(lo, w);
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && lo->aux + lo->w == hi->aux) return mkExtract(lo->a, lo->aux, w);
  // concat(extract(x), concat(extract(x), r))
  if (lo->k == K_CONCAT && hi->k == K_EXTRACT && lo->a->k == K_EXTRACT && lo->a->a == hi->a && lo->a->aux + lo->a->w == hi->aux) return mkConcat(mkExtract(hi->a, lo->a->aux, hi->w + lo->a->w), lo->b);
  // sign extension pieces: extract of sext narrower handled in extract
  if (hi->k == K_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (hi->isC() && lo->k == K_CONCAT && lo->a->isC()) return mkConcat(mkConcat(hi, lo->a), lo->b);
  if (hi->k == K_ZEXT) return mkZExt(mkConcat(hi->a, lo), w);
  if (hi->k == K_EXTRACT && hi->a == lo && 0) return nullptr;
  if (hi->k == K_ITE && lo->k == K_ITE && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  return mk(K_CONCAT, w, hi, lo);
}
E mkExtract(E a, unsigned off, unsigned w) {
  assert(off + w <= a->w && w > 0);
  if (off == 0 && w == a->w) return a;
  switch (a->k) {
  case K_CONST: return mkC(a->v >> off, w);
  case K_EXTRACT: return mkExtract(a->a, a->aux + off, w);
  case K_CONCAT:
    if (off >= a->b->w) return mkExtract(a->a, off - a->b->w, w);
    if (off + w <= a->b->w) return mkExtract(a->b, off, w);
    return mkConcat(mkExtract(a->a, 0, off + w - a->b->w), mkExtract(a->b, off, a->b->w - off));
  case K_ZEXT:
    if (off >= a->a->w) return mkC(0, w);
    if (off + w <= a->a->w) return mkExtract(a->a, off, w);
    return mkZExt(mkExtract(a->a, off, a->a->w - off), w);
  case K_SEXT:
    if (off + w <= a->a->w) return mkExtract(a->a, off, w);
    if (off < a->a->w) return mkSExt(mkExtract(a->a, off, a->a->w - off), w);
    return mkSExt(mkExtract(a->a, a->a->w - 1, 1), w);
  case K_ITE: if ((a->b->isC() || a->c->isC()) || iteConstArms(a)) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w)); break;
  case K_AND: case K_OR: case K_XOR: { if (a->a->isC() || w <= 8) { E x = mkExtract(a->a, off, w), y = mkExtract(a->b, off, w); return a->k == K_AND ? mkAnd(x, y) : a->k == K_OR ? mkOr(x, y) : mkXor(x, y); } break; }
  case K_NOT: return mkNot(mkExtract(a->a, off, w));
  case K_ADD: case K_SUB: case K_MUL:
    if (off == 0) { auto simp = [&](E x) { return x->isC() || ((x->k == K_ZEXT || x->k == K_SEXT) && x->a->w <= w) || (x->k == K_CONCAT && x->b->w >= w); };
      if (simp(a->a) && simp(a->b)) { E x = mkExtract(a->a, 0, w), y = mkExtract(a->b, 0, w); return a->k == K_ADD ? mkAdd(x, y) : a->k == K_SUB ? mkSub(x, y) : mkMul(x, y); } }
    break;
  default: break;
  }
  if (off == 0 && a->tz >= w) return mkC(0, w);
  return mk(K_EXTRACT, w, a, 0, 0, off);
}
E mkZExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (a->isC()) return mkC(a->v, w);
  if (a->k == K_ZEXT) return mkZExt(a->a, w);
  if (a->k == K_ITE && (iteConstArms(a))) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
  return mk(K_ZEXT, w, a);
}
E mkSExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (a->isC()) return mkC((u128)sx(a->v, a->w), w);
  if (a->slo >= 0) return mkZExt(a, w);
  if (a->k == K_SEXT) return mkSExt(a->a, w);
  if (a->k == K_ITE && (iteConstArms(a))) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return mk(K_SEXT, w, a);
}
// ---- floating point -------------------------------------------------------
static double b2d(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
static float b2f(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static u128 d2b(double d) { if (d != d) return 0x7ff8000000000000ull; uint64_t x; memcpy(&x, &d, 8); return x; }
static u128 f2b(float d) { if (d != d) return 0x7fc00000u; uint32_t x; memcpy(&x, &d, 4); return x; }
static double rnd(double x, unsigned rm) { switch (rm) { case RM_RNE: return nearbyint(x); case RM_DOWN: return floor(x); case RM_UP: return ceil(x); case RM_TRUNC: return trunc(x); default: return round(x); } }
static u128 evalF(Kind k, unsigned w, u128 a, u128 b, uint32_t aux, unsigned aw) {
  switch (k) {
  case K_FADD: return w == 64 ? d2b(b2d(a) + b2d(b)) : f2b(b2f(a) + b2f(b));
  case K_FSUB: return w == 64 ? d2b(b2d(a) - b2d(b)) : f2b(b2f(a) - b2f(b));
  case K_FMUL: return w == 64 ? d2b(b2d(a) * b2d(b)) : f2b(b2f(a) * b2f(b));
  case K_FDIV: return w == 64 ? d2b(b2d(a) / b2d(b)) : f2b(b2f(a) / b2f(b));
  case K_FREM: return w == 64 ? d2b(fmod(b2d(a), b2d(b))) : f2b(fmodf(b2f(a), b2f(b)));
  case K_FSQRT: return w == 64 ? d2b(sqrt(b2d(a))) : f2b(sqrtf(b2f(a)));
  case K_FRINT: return w == 64 ? d2b(rnd(b2d(a), aux)) : f2b((float)rnd(b2f(a), aux));
  case K_F2SI: { double d = aw == 64 ? b2d(a) : b2f(a); d = trunc(d); if (!(d >= -ldexp(1, w - 1) && d < ldexp(1, w - 1))) return 0; return (u128)(s128)d & maskw(w); }
  case K_F2UI: { double d = aw == 64 ? b2d(a) : b2f(a); d = trunc(d); if (!(d >= 0 && d < ldexp(1, w))) return 0; return (u128)d & maskw(w); }
  case K_SI2F: { s128 s = sx(a, aw); return w == 64 ? d2b((double)s) : f2b((float)s); }
  case K_UI2F: { return w == 64 ? d2b((double)a) : f2b((float)a); }
  case K_FCVT: return w == 64 ? d2b((double)b2f(a)) : f2b((float)b2d(a));
  default: assert(0); return 0;
  }
}
static E mkFop(Kind k, unsigned w, E a, E b, uint32_t aux) {
  if (a->isC() && (!b || b->isC())) return mkC(evalF(k, w, a->v, b ? b->v : 0, aux, a->w), w);
  if (b && (k == K_FADD || k == K_FMUL) && a->id > b->id) std::swap(a, b);
  return mk(k, w, a, b, 0, aux);
}
static bool isFC(E a, double d) { return a->isC() && (a->w == 64 ? a->v == d2b(d) : a->v == f2b((float)d)); }
E mkF(Kind k, E a, E b) {
  if (k == K_FMUL || k == K_FDIV) { if (isFC(b, 1.0) && 0) return a; } // NaN canonicalisation kept
  return mkFop(k, a->w, a, b, 0);
}
E mkFSqrt(E a) { return mkFop(K_FSQRT, a->w, a, 0, 0); }
E mkFRint(E a, unsigned rm) { return mkFop(K_FRINT, a->w, a, 0, rm); }
E mkF2SI(E a, unsigned w) { return mkFop(K_F2SI, w, a, 0, 0); }
E mkF2UI(E a, unsigned w) { return mkFop(K_F2UI, w, a, 0, 0); }
E mkSI2F(E a, unsigned fw) { return mkFop(K_SI2F, fw, a, 0, 0); }
E mkUI2F(E a, unsigned fw) { return mkFop(K_UI2F, fw, a, 0, 0); }
E mkFCvt(E a, unsigned fw) { if (a->w == fw) return a; return mkFop(K_FCVT, fw, a, 0, 0); }
static std::vector<std::pair<std::string, UFn>> g_ufs;
E mkUF(const std::string &name, UFn f, unsigned w, E a, E b, E c) {
  if (a->isC() && (!b || b->isC()) && (!c || c->isC())) return mkC(f(a->v, b ? b->v : 0, c ? c->v : 0), w);
  uint32_t i = 0; while (i < g_ufs.size() && g_ufs[i].first != name) i++; if (i == g_ufs.size()) g_ufs.push_back({name, f});
  return mk(K_UF, w, a, b, c, i);
}
static u128 infBits(unsigned w) { return w == 64 ? (u128)0x7ff0000000000000ull : (u128)0x7f800000u; }
E fpIsNaN(E a) {
  if (a->k == K_SI2F || a->k == K_UI2F) return mkC(0, 1);
  if (a->k == K_FRINT || a->k == K_FCVT) return fpIsNaN(a->a);
  E m = mkExtract(a, 0, a->w - 1); return mkUlt(mkC(infBits(a->w), a->w - 1), m); }
E fpOEQ(E a, E b) {
  E nn = mkAnd(mkNot(fpIsNaN(a)), mkNot(fpIsNaN(b)));
  E z = mkAnd(mkEq(mkExtract(a, 0, a->w - 1), mkC(0, a->w - 1)), mkEq(mkExtract(b, 0, a->w - 1), mkC(0, a->w - 1)));
  return mkAnd(nn, mkOr(mkEq(a, b), z));
}
static E fpLess(E a, E b, bool orEq) {
  unsigned w = a->w; E nn = mkAnd(mkNot(fpIsNaN(a)), mkNot(fpIsNaN(b)));
  E ma = mkExtract(a, 0, w - 1), mb = mkExtract(b, 0, w - 1), sa = mkExtract(a, w - 1, 1), sb = mkExtract(b, w - 1, 1);
  E zero = mkC(0, w - 1), bothZ = mkAnd(mkEq(ma, zero), mkEq(mb, zero));
  // both positive: ma<mb ; both negative: mb<ma ; a neg b pos: not both zero (<) / true (<=)
  E pp = orEq ? mkUle(ma, mb) : mkUlt(ma, mb), nnv = orEq ? mkUle(mb, ma) : mkUlt(mb, ma);
  E np = orEq ? mkC(1, 1) : mkNot(bothZ), pn = orEq ? bothZ : mkC(0, 1);
  return mkAnd(nn, mkIte(sa, mkIte(sb, nnv, np), mkIte(sb, pn, pp)));
}
E fpOLT(E a, E b) { return fpLess(a, b, false); }
E fpOLE(E a, E b) { return fpLess(a, b, true); }
E fpNeg(E a) { unsigned w = a->w; return mkConcat(mkNot(mkExtract(a, w - 1, 1)), mkExtract(a, 0, w - 1)); }
E fpAbs(E a) { unsigned w = a->w; return mkZExt(mkExtract(a, 0, w - 1), w); }
E fpCopySign(E a, E b) { unsigned w = a->w; return mkConcat(mkExtract(b, w - 1, 1), mkExtract(a, 0, w - 1)); }
static E fconst(double d, unsigned fw) { return mkC(fw == 64 ? d2b(d) : f2b((float)d), fw); }
E x86F2SI(E a, unsigned w) {
  if (w < 32) return mkTrunc(x86F2SI(a, 32), w);
  if (a->k == K_SI2F && a->a->w <= w && (a->w == 64 ? a->a->w <= 53 : a->a->w <= 24)) return mkSExt(a->a, w);
  // in range iff trunc(a) in [-2^(w-1), 2^(w-1))
  double lim = ldexp(1.0, w - 1); E inr;
  if (a->w == 64 && w == 32) inr = mkAnd(fpOLT(fconst(-lim - 1, 64), a), fpOLT(a, fconst(lim, 64)));
  else inr = mkAnd(fpOLE(fconst(-lim, a->w), a), fpOLT(a, fconst(lim, a->w)));
  return mkIte(inr, mkF2SI(a, w), mkC((u128)1 << (w - 1), w));
}
E x86F2UI(E a, unsigned w) {
  if (w < 32) return mkTrunc(x86F2SI(a, 32), w);
  if (w == 32) return mkTrunc(x86F2SI(a, 64), 32);
  E lim = fconst(ldexp(1.0, 63), a->w);
  return mkIte(fpOLT(a, lim), x86F2SI(a, 64), mkXor(x86F2SI(mkF(K_FSUB, a, lim), 64), mkC((u128)1 << 63, 64)));
}
// ---- evaluation -----------------------------------------------------------
u128 Model::get(uint32_t var) const {
  auto it = m.find(var); if (it != m.end()) return it->second;
  auto &vi = g_vars[var]; if (vi.ranged && !(vi.lo <= 0 && vi.hi >= 0)) return (u128)vi.lo & maskw(vi.w);
  return 0;
}
u128 evalE(E e, const Model &m) {
  if (e->k == K_CONST) return e->v;
  if (e->epoch == g_epoch) return e->ev;
  unsigned w = e->w; u128 r = 0, M = maskw(w);
  switch (e->k) {
  case K_VAR: r = m.get(e->aux); break;
  case K_ITE: r = evalE(e->a, m) ? evalE(e->b, m) : evalE(e->c, m); break;
  default: {
    u128 a = evalE(e->a, m), b = e->b ? evalE(e->b, m) : 0; unsigned aw = e->a->w;
    switch (e->k) {
    case K_ADD: r = a + b; break; case K_SUB: r = a - b; break; case K_MUL: r = a * b; break;
    case K_UDIV: r = b ? a / b : M; break; case K_UREM: r = b ? a % b : a; break;
    case K_SDIV: { s128 x = sx(a, w), y = sx(b, w); r = y == 0 ? (x < 0 ? 1 : M) : y == -1 ? -(u128)x : (u128)(x / y); break; }
    case K_SREM: { s128 x = sx(a, w), y = sx(b, w); r = y == 0 ? a : y == -1 ? 0 : (u128)(x % y); break; }
    case K_AND: r = a & b; break; case K_OR: r = a | b; break; case K_XOR: r = a ^ b; break; case K_NOT: r = ~a; break;
    case K_SHL: r = b >= w ? 0 : a << (unsigned)b; break;
    case K_LSHR: r = b >= w ? 0 : a >> (unsigned)b; break;
    case K_ASHR: r = (u128)(sx(a, w) >> (unsigned)(b >= w ? w - 1 : b)); break;
    case K_EQ: r = a == b; break; case K_ULT: r = a < b; break; case K_ULE: r = a <= b; break;
    case K_SLT: r = sx(a, aw) < sx(b, aw); break; case K_SLE: r = sx(a, aw) <= sx(b, aw); break;
    case K_CONCAT: r = (a << e->b->w) | b; break;
    case K_EXTRACT: r = a >> e->aux; break;
    case K_ZEXT: r = a; break; case K_SEXT: r = (u128)sx(a, aw); break;
    case K_UF: r = g_ufs[e->aux].second(a, b, e->c ? evalE(e->c, m) : 0); break;
    default: r = evalF(e->k, w, a, b, e->aux, aw); break;
    } } }
  r &= M; e->epoch = g_epoch; e->ev = r; return r;
}
std::string show(E e, int d) {
  static const char *nm[] = {"const", "var", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "~", "<<", ">>u", ">>s", "=", "<u", "<=u", "<s", "<=s", "ite", "cat", "ext", "zx", "sx", "fadd", "fsub", "fmul", "fdiv", "frem", "fsqrt", "frint", "f2si", "f2ui", "si2f", "ui2f", "fcvt", "uf"};
  if (e->isC()) { s128 s = sx(e->v, e->w); if (s < 0 && s > -100000) return "-" + u128s((u128)-s); return u128s(e->v); }
  if (e->k == K_VAR) return g_vars[e->aux].name;
  if (d == 0) return "...";
  std::string s = "("; s += nm[e->k]; if (e->k == K_EXTRACT) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->w) + "]"; if (e->k == K_ZEXT || e->k == K_SEXT) s += std::to_string(e->w);
  for (E c : {e->a, e->b, e->c}) if (c) s += " " + show(c, d - 1);
  return s + ")";
}
