#include "solver.h"
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <unordered_set>
#include <unistd.h>
#include <cmath>
#include <cstring>
#include <algorithm>
SolverStats g_ss; SolverCfg g_scfg;
static Z3_context C = nullptr;
static Z3_sort bvs[130]; static Z3_sort F64, F32, INT, BOOL; static Z3_ast RMs[5];
static std::vector<Z3_ast> bvMemo, fpMemo, boolMemo, intU, intS, intB;
static bool g_z3err = false;
static void errh(Z3_context c, Z3_error_code e) { g_z3err = true; if (g_scfg.verbose) fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
static void init() {
  if (C) return;
  Z3_config cfg = Z3_mk_config(); C = Z3_mk_context(cfg); Z3_set_error_handler(C, errh);
  F64 = Z3_mk_fpa_sort_64(C); F32 = Z3_mk_fpa_sort_32(C); INT = Z3_mk_int_sort(C); BOOL = Z3_mk_bool_sort(C);
  RMs[RM_RNE] = Z3_mk_fpa_rne(C); RMs[RM_DOWN] = Z3_mk_fpa_rtn(C); RMs[RM_UP] = Z3_mk_fpa_rtp(C); RMs[RM_TRUNC] = Z3_mk_fpa_rtz(C); RMs[RM_RNA] = Z3_mk_fpa_rna(C);
}
static Z3_sort bvsort(unsigned w) { if (!bvs[w]) bvs[w] = Z3_mk_bv_sort(C, w); return bvs[w]; }
template <class T> static Z3_ast &slot(std::vector<T> &m, E e) { if (m.size() <= e->id) m.resize(std::max<size_t>(e->id + 1, m.size() * 2), nullptr); return m[e->id]; }
static Z3_ast bvnum(u128 v, unsigned w) { return Z3_mk_numeral(C, u128s(v & maskw(w)).c_str(), bvsort(w)); }

static Z3_ast encBV(E e); static Z3_ast encBool(E e); static Z3_ast encFP(E e);
static Z3_ast encFP(E e) {
  Z3_ast &s0 = slot(fpMemo, e); if (s0) return s0;
  Z3_ast r = nullptr; Z3_sort FS = e->w == 64 ? F64 : F32;
  switch (e->k) {
  case K_FADD: { Z3_ast a = encFP(e->a), b = encFP(e->b); r = Z3_mk_fpa_add(C, RMs[0], a, b); break; }
  case K_FSUB: { Z3_ast a = encFP(e->a), b = encFP(e->b); r = Z3_mk_fpa_sub(C, RMs[0], a, b); break; }
  case K_FMUL: { Z3_ast a = encFP(e->a), b = encFP(e->b); r = Z3_mk_fpa_mul(C, RMs[0], a, b); break; }
  case K_FDIV: { Z3_ast a = encFP(e->a), b = encFP(e->b); r = Z3_mk_fpa_div(C, RMs[0], a, b); break; }
  case K_FREM: { // fmod: exact remainder with truncation; z3 has IEEE remainder only -> r = rem; adjust sign to match a
    Z3_ast a = encFP(e->a), b = encFP(e->b);
    Z3_ast ab = Z3_mk_fpa_abs(C, a), bb = Z3_mk_fpa_abs(C, b); Z3_ast rem = Z3_mk_fpa_rem(C, ab, bb);
    Z3_ast neg = Z3_mk_fpa_is_negative(C, rem); Z3_ast zero = Z3_mk_fpa_is_zero(C, rem);
    Z3_ast nz[2] = {neg, Z3_mk_not(C, zero)};
    Z3_ast fixed = Z3_mk_ite(C, Z3_mk_and(C, 2, nz), Z3_mk_fpa_add(C, RMs[0], rem, bb), Z3_mk_fpa_abs(C, rem));
    r = Z3_mk_ite(C, Z3_mk_fpa_is_negative(C, a), Z3_mk_fpa_neg(C, fixed), fixed); break; }
  case K_FSQRT: r = Z3_mk_fpa_sqrt(C, RMs[0], encFP(e->a)); break;
  case K_FRINT: r = Z3_mk_fpa_round_to_integral(C, RMs[e->aux], encFP(e->a)); break;
  case K_SI2F: r = Z3_mk_fpa_to_fp_signed(C, RMs[0], encBV(e->a), FS); break;
  case K_UI2F: r = Z3_mk_fpa_to_fp_unsigned(C, RMs[0], encBV(e->a), FS); break;
  case K_FCVT: r = Z3_mk_fpa_to_fp_float(C, RMs[0], encFP(e->a), FS); break;
  case K_ITE: { Z3_ast c = encBool(e->a), a = encFP(e->b), b = encFP(e->c); r = Z3_mk_ite(C, c, a, b); break; }
  default: r = Z3_mk_fpa_to_fp_bv(C, encBV(e), FS); break;
  }
  Z3_inc_ref(C, r); slot(fpMemo, e) = r; return r;
}
static Z3_ast encBool(E e) {
  assert(e->w == 1);
  Z3_ast &s0 = slot(boolMemo, e); if (s0) return s0;
  Z3_ast r = nullptr;
  switch (e->k) {
  case K_CONST: r = e->v ? Z3_mk_true(C) : Z3_mk_false(C); break;
  case K_EQ: if (e->a->w == 1) { Z3_ast a = encBool(e->a), b = encBool(e->b); r = Z3_mk_iff(C, a, b); } else { Z3_ast a = encBV(e->a), b = encBV(e->b); r = Z3_mk_eq(C, a, b); } break;
  case K_ULT: { Z3_ast a = encBV(e->a), b = encBV(e->b); r = Z3_mk_bvult(C, a, b); break; }
  case K_ULE: { Z3_ast a = encBV(e->a), b = encBV(e->b); r = Z3_mk_bvule(C, a, b); break; }
  case K_SLT: { Z3_ast a = encBV(e->a), b = encBV(e->b); r = Z3_mk_bvslt(C, a, b); break; }
  case K_SLE: { Z3_ast a = encBV(e->a), b = encBV(e->b); r = Z3_mk_bvsle(C, a, b); break; }
  case K_AND: { Z3_ast x[2] = {encBool(e->a), encBool(e->b)}; r = Z3_mk_and(C, 2, x); break; }
  case K_OR: { Z3_ast x[2] = {encBool(e->a), encBool(e->b)}; r = Z3_mk_or(C, 2, x); break; }
  case K_XOR: { Z3_ast a = encBool(e->a), b = encBool(e->b); r = Z3_mk_xor(C, a, b); break; }
  case K_NOT: r = Z3_mk_not(C, encBool(e->a)); break;
  case K_ITE: { Z3_ast c = encBool(e->a), a = encBool(e->b), b = encBool(e->c); r = Z3_mk_ite(C, c, a, b); break; }
  default: r = Z3_mk_eq(C, encBV(e), bvnum(1, 1)); break;
  }
  Z3_inc_ref(C, r); slot(boolMemo, e) = r; return r;
}
static Z3_ast encBV(E e) {
  Z3_ast &s0 = slot(bvMemo, e); if (s0) return s0;
  Z3_ast r = nullptr; unsigned w = e->w;
  auto A = [&] { return encBV(e->a); }; auto B = [&] { return encBV(e->b); };
#define BIN(f) { Z3_ast a = A(), b = B(); r = f(C, a, b); break; }
  switch (e->k) {
  case K_CONST: r = bvnum(e->v, w); break;
  case K_VAR: { std::string n = "v" + std::to_string(e->aux); r = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), bvsort(w)); break; }
  case K_ADD: BIN(Z3_mk_bvadd) case K_SUB: BIN(Z3_mk_bvsub) case K_MUL: BIN(Z3_mk_bvmul)
  case K_UDIV: BIN(Z3_mk_bvudiv) case K_SDIV: BIN(Z3_mk_bvsdiv) case K_UREM: BIN(Z3_mk_bvurem) case K_SREM: BIN(Z3_mk_bvsrem)
  case K_AND: if (w == 1) goto boolish; BIN(Z3_mk_bvand)
  case K_OR: if (w == 1) goto boolish; BIN(Z3_mk_bvor)
  case K_XOR: if (w == 1) goto boolish; BIN(Z3_mk_bvxor)
  case K_NOT: if (w == 1) goto boolish; r = Z3_mk_bvnot(C, A()); break;
  case K_SHL: BIN(Z3_mk_bvshl) case K_LSHR: BIN(Z3_mk_bvlshr) case K_ASHR: BIN(Z3_mk_bvashr)
  case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE:
  boolish: r = Z3_mk_ite(C, encBool(e), bvnum(1, 1), bvnum(0, 1)); break;
  case K_ITE: { if (w == 1) goto boolish; Z3_ast c = encBool(e->a), a = encBV(e->b), b = encBV(e->c); r = Z3_mk_ite(C, c, a, b); break; }
  case K_CONCAT: BIN(Z3_mk_concat)
  case K_EXTRACT: r = Z3_mk_extract(C, e->aux + w - 1, e->aux, A()); break;
  case K_ZEXT: r = Z3_mk_zero_ext(C, w - e->a->w, A()); break;
  case K_SEXT: r = Z3_mk_sign_ext(C, w - e->a->w, A()); break;
  case K_F2SI: r = Z3_mk_fpa_to_sbv(C, RMs[RM_TRUNC], encFP(e->a), w); break;
  case K_F2UI: r = Z3_mk_fpa_to_ubv(C, RMs[RM_TRUNC], encFP(e->a), w); break;
  case K_UF: { std::string n = "uf" + std::to_string(e->id); r = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), Z3_mk_bv_sort(C, w)); break; }
  default: { // FP result used as bits: canonical NaN
    Z3_ast f = encFP(e); u128 nan = w == 64 ? (u128)0x7ff8000000000000ull : (u128)0x7fc00000u;
    r = Z3_mk_ite(C, Z3_mk_fpa_is_nan(C, f), bvnum(nan, w), Z3_mk_fpa_to_ieee_bv(C, f)); break; }
  }
#undef BIN
  Z3_inc_ref(C, r); slot(bvMemo, e) = r; return r;
}
// ---- integer encoding -----------------------------------------------------
// encU(e): unsigned value as Int; encS(e): signed value as Int. Fails (returns null) on operations without a linear reading.
static Z3_ast encU_(E e); static Z3_ast encS_(E e); static Z3_ast encIB_(E e);
static std::vector<char> failU, failS, failB; // negative memo: sub-expressions without an integer reading
#define NEGMEMO(f, v) static Z3_ast f(E e) { if (e->id < v.size() && v[e->id]) return nullptr; Z3_ast r = f##_(e); if (!r) { if (v.size() <= e->id) v.resize(std::max<size_t>(e->id + 1, v.size() * 2)); v[e->id] = 1; } return r; }
NEGMEMO(encU, failU) NEGMEMO(encS, failS) NEGMEMO(encIB, failB)
static Z3_ast inum(s128 v) { std::string s = v < 0 ? "-" + u128s((u128)-v) : u128s((u128)v); return Z3_mk_numeral(C, s.c_str(), INT); }
static Z3_ast inumU(u128 v) { return Z3_mk_numeral(C, u128s(v).c_str(), INT); }
static Z3_ast pow2(unsigned w) { if (w < 128) return inumU((u128)1 << w); return Z3_mk_numeral(C, "340282366920938463463374607431768211456", INT); }
static Z3_ast iadd(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_add(C, 2, x); }
static Z3_ast isub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_sub(C, 2, x); }
static Z3_ast imul(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_mul(C, 2, x); }
static Z3_ast keep(std::vector<Z3_ast> &m, E e, Z3_ast r) { if (r) { Z3_inc_ref(C, r); slot(m, e) = r; } return r; }
static const s128 BIG = (s128)1 << 100;
static bool sOK(E e) { return e->w < 120; }
static Z3_ast wrapU(Z3_ast x, s128 lo, s128 hi, unsigned w) { // x in [lo,hi] mathematically -> [0,2^w)
  s128 P = (s128)1 << w;
  if (lo >= 0 && hi < P) return x;
  if (lo >= 0 && hi < 2 * P) return Z3_mk_ite(C, Z3_mk_ge(C, x, inum(P)), isub(x, inum(P)), x);
  if (lo >= -P && hi < P) return Z3_mk_ite(C, Z3_mk_lt(C, x, inum(0)), iadd(x, inum(P)), x);
  return Z3_mk_mod(C, x, inum(P));
}
static Z3_ast wrapS(Z3_ast x, s128 lo, s128 hi, unsigned w) {
  s128 P = (s128)1 << w, H = P / 2;
  if (lo >= -H && hi < H) return x;
  if (lo >= -H && hi < H + P) return Z3_mk_ite(C, Z3_mk_ge(C, x, inum(H)), isub(x, inum(P)), x);
  if (lo >= -H - P && hi < H) return Z3_mk_ite(C, Z3_mk_lt(C, x, inum(-H)), iadd(x, inum(P)), x);
  if (lo >= -H - P && hi < H + P) return Z3_mk_ite(C, Z3_mk_ge(C, x, inum(H)), isub(x, inum(P)), Z3_mk_ite(C, Z3_mk_lt(C, x, inum(-H)), iadd(x, inum(P)), x));
  return isub(Z3_mk_mod(C, iadd(x, inum(H)), inum(P)), inum(H));
}
static Z3_ast u2s(E e, Z3_ast u) { if (e->slo >= 0) return u; s128 P = (s128)1 << e->w; if (e->shi < 0) return isub(u, inum(P)); return Z3_mk_ite(C, Z3_mk_ge(C, u, inum(P / 2)), isub(u, inum(P)), u); }
static Z3_ast s2u(E e, Z3_ast s) { if (e->slo >= 0) return s; s128 P = (s128)1 << e->w; if (e->shi < 0) return iadd(s, inum(P)); return Z3_mk_ite(C, Z3_mk_lt(C, s, inum(0)), iadd(s, inum(P)), s); }
static bool preferU(E e) { // operation natively computed unsigned
  switch (e->k) { case K_UDIV: case K_UREM: case K_CONCAT: case K_ZEXT: case K_EXTRACT: return true;
  case K_VAR: return !(g_vars[e->aux].ranged && g_vars[e->aux].lo < 0);
  default: return false; }
}
static Z3_ast encU_(E e) {
  Z3_ast &s0 = slot(intU, e); if (s0) return s0;
  if (e->w >= 120) return nullptr;
  unsigned w = e->w; Z3_ast r = nullptr;
  if (w == 1) { Z3_ast b = encIB(e); if (!b) return nullptr; return keep(intU, e, Z3_mk_ite(C, b, inum(1), inum(0))); }
  switch (e->k) {
  case K_CONST: r = inumU(e->v); break;
  case K_VAR: if (preferU(e)) { std::string n = "i" + std::to_string(e->aux); r = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), INT); } else { r = encS(e); if (r) r = s2u(e, r); } break;
  case K_UDIV: { if (!e->b->isC() || !e->b->v) return nullptr; Z3_ast a = encU(e->a); if (!a) return nullptr; r = Z3_mk_div(C, a, inumU(e->b->v)); break; }
  case K_UREM: { if (!e->b->isC() || !e->b->v) return nullptr; Z3_ast a = encU(e->a); if (!a) return nullptr; r = Z3_mk_mod(C, a, inumU(e->b->v)); break; }
  case K_CONCAT: { Z3_ast a = encU(e->a), b = encU(e->b); if (!a || !b) return nullptr; r = iadd(imul(a, pow2(e->b->w)), b); break; }
  case K_ZEXT: r = encU(e->a); break;
  case K_EXTRACT: {
    Z3_ast a;
    if (e->aux == 0 && !preferU(e->a) && e->a->slo >= -((s128)1 << w) && e->a->shi < ((s128)1 << w)) { a = encS(e->a); if (!a) return nullptr; r = wrapU(a, e->a->slo, e->a->shi, w); break; }
    a = encU(e->a); if (!a) return nullptr;
    if (e->aux) a = Z3_mk_div(C, a, pow2(e->aux));
    if ((e->a->hi >> e->aux) > maskw(w)) a = Z3_mk_mod(C, a, pow2(w));
    r = a; break; }
  case K_ITE: { Z3_ast c = encIB(e->a), a = encU(e->b), b = encU(e->c); if (!a || !b || !c) return nullptr; r = Z3_mk_ite(C, c, a, b); break; }
  case K_NOT: { Z3_ast a = encU(e->a); if (!a) return nullptr; r = isub(inumU(maskw(w)), a); break; }
  default: { Z3_ast s = encS(e); if (!s) return nullptr; r = s2u(e, s); break; }
  }
  return keep(intU, e, r);
}
static Z3_ast encS_(E e) {
  Z3_ast &s0 = slot(intS, e); if (s0) return s0;
  if (e->w >= 120) return nullptr;
  unsigned w = e->w; Z3_ast r = nullptr;
  if (e->isC()) return keep(intS, e, inum(sx(e->v, w)));
  if (w == 1) { Z3_ast b = encIB(e); if (!b) return nullptr; return keep(intS, e, Z3_mk_ite(C, b, inum(-1), inum(0))); }
  if (preferU(e)) { Z3_ast u = encU(e); if (!u) return nullptr; return keep(intS, e, u2s(e, u)); }
  switch (e->k) {
  case K_VAR: { std::string n = "i" + std::to_string(e->aux); r = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), INT); break; }
  case K_ADD: { Z3_ast a = encS(e->a), b = encS(e->b); if (!a || !b) return nullptr; r = wrapS(iadd(a, b), e->a->slo + e->b->slo, e->a->shi + e->b->shi, w); break; }
  case K_SUB: { Z3_ast a = encS(e->a), b = encS(e->b); if (!a || !b) return nullptr; r = wrapS(isub(a, b), e->a->slo - e->b->shi, e->a->shi - e->b->slo, w); break; }
  case K_MUL: {
    if (!e->a->isC()) return nullptr; // linear only
    s128 k = sx(e->a->v, w); Z3_ast b = encS(e->b); if (!b) return nullptr;
    if (w > 64) return nullptr;
    s128 l = e->b->slo, h = e->b->shi; // |l|,|h| <= 2^63, |k| <= 2^63
    s128 p = l * k, q = h * k; if (k == -((s128)1 << 63)) { p = -((s128)1 << 126); q = ((s128)1 << 126); }
    if (p > q) std::swap(p, q);
    r = wrapS(imul(inum(k), b), p, q, w); break; }
  case K_SDIV: { if (!e->b->isC()) return nullptr; s128 d = sx(e->b->v, w); if (d <= 0) return nullptr; Z3_ast a = encS(e->a); if (!a) return nullptr;
    Z3_ast D = inum(d); Z3_ast pos = Z3_mk_div(C, a, D), neg = Z3_mk_unary_minus(C, Z3_mk_div(C, Z3_mk_unary_minus(C, a), D));
    r = e->a->slo >= 0 ? pos : Z3_mk_ite(C, Z3_mk_ge(C, a, inum(0)), pos, neg); break; }
  case K_SREM: { if (!e->b->isC()) return nullptr; s128 d = sx(e->b->v, w); if (d <= 0) return nullptr; Z3_ast a = encS(e->a); if (!a) return nullptr;
    Z3_ast D = inum(d); Z3_ast pos = Z3_mk_mod(C, a, D), neg = Z3_mk_unary_minus(C, Z3_mk_mod(C, Z3_mk_unary_minus(C, a), D));
    r = e->a->slo >= 0 ? pos : Z3_mk_ite(C, Z3_mk_ge(C, a, inum(0)), pos, neg); break; }
  case K_SEXT: r = encS(e->a); break;
  case K_NOT: { Z3_ast a = encS(e->a); if (!a) return nullptr; r = isub(inum(-1), a); break; }
  case K_ITE: { Z3_ast c = encIB(e->a), a = encS(e->b), b = encS(e->c); if (!a || !b || !c) return nullptr; r = Z3_mk_ite(C, c, a, b); break; }
  default: return nullptr;
  }
  return keep(intS, e, r);
}
static Z3_ast encIB_(E e) {
  Z3_ast &s0 = slot(intB, e); if (s0) return s0;
  Z3_ast r = nullptr;
  switch (e->k) {
  case K_CONST: r = e->v ? Z3_mk_true(C) : Z3_mk_false(C); break;
  case K_EQ: {
    if (e->a->w == 1) { Z3_ast a = encIB(e->a), b = encIB(e->b); if (!a || !b) return nullptr; r = Z3_mk_iff(C, a, b); break; }
    bool s = !preferU(e->b) || (!e->a->isC() && !preferU(e->a));
    Z3_ast a = s ? encS(e->a) : encU(e->a), b = s ? encS(e->b) : encU(e->b); if (!a || !b) return nullptr; r = Z3_mk_eq(C, a, b); break; }
  case K_ULT: { Z3_ast a = encU(e->a), b = encU(e->b); if (!a || !b) return nullptr; r = Z3_mk_lt(C, a, b); break; }
  case K_ULE: { Z3_ast a = encU(e->a), b = encU(e->b); if (!a || !b) return nullptr; r = Z3_mk_le(C, a, b); break; }
  case K_SLT: { Z3_ast a = encS(e->a), b = encS(e->b); if (!a || !b) return nullptr; r = Z3_mk_lt(C, a, b); break; }
  case K_SLE: { Z3_ast a = encS(e->a), b = encS(e->b); if (!a || !b) return nullptr; r = Z3_mk_le(C, a, b); break; }
  case K_AND: { Z3_ast x[2] = {encIB(e->a), encIB(e->b)}; if (!x[0] || !x[1]) return nullptr; r = Z3_mk_and(C, 2, x); break; }
  case K_OR: { Z3_ast x[2] = {encIB(e->a), encIB(e->b)}; if (!x[0] || !x[1]) return nullptr; r = Z3_mk_or(C, 2, x); break; }
  case K_XOR: { Z3_ast a = encIB(e->a), b = encIB(e->b); if (!a || !b) return nullptr; r = Z3_mk_xor(C, a, b); break; }
  case K_NOT: { Z3_ast a = encIB(e->a); if (!a) return nullptr; r = Z3_mk_not(C, a); break; }
  case K_ITE: { Z3_ast c = encIB(e->a), a = encIB(e->b), b = encIB(e->c); if (!a || !b || !c) return nullptr; r = Z3_mk_ite(C, c, a, b); break; }
  case K_VAR: { std::string n = "b" + std::to_string(e->aux); r = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), BOOL); break; }
  case K_EXTRACT: { // single bit
    if (e->aux + 1 == e->a->w) { Z3_ast a = encS(e->a); if (!a) return nullptr; r = Z3_mk_lt(C, a, inum(0)); break; }
    Z3_ast a = encU(e->a); if (!a) return nullptr; if (e->aux) a = Z3_mk_div(C, a, pow2(e->aux)); r = Z3_mk_eq(C, Z3_mk_mod(C, a, inum(2)), inum(1)); break; }
  default: return nullptr;
  }
  return keep(intB, e, r);
}
// ---- query ----------------------------------------------------------------
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct CacheEnt { Res r; std::vector<std::pair<uint32_t, u128>> m; };
struct VH { size_t operator()(const std::vector<uint32_t> &v) const { size_t h = v.size(); for (auto x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ull; return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VH> g_cache;

static u128 parseNum(const char *s) { u128 v = 0; for (; *s; s++) if (*s >= '0' && *s <= '9') v = v * 10 + (*s - '0'); return v; }
static bool modelVal(Z3_model m, Z3_ast c, u128 &out, bool isInt) {
  Z3_ast v = nullptr; if (!Z3_model_eval(C, m, c, true, &v) || !v) return false;
  if (Z3_get_sort_kind(C, Z3_get_sort(C, v)) == Z3_BOOL_SORT) { out = Z3_get_bool_value(C, v) == Z3_L_TRUE; return true; }
  if (Z3_get_ast_kind(C, v) != Z3_NUMERAL_AST) return false;
  const char *s = Z3_get_numeral_string(C, v); bool neg = s[0] == '-'; u128 x = parseNum(s); out = neg ? -x : x; (void)isInt; return true;
}
static Z3_solver mkSolver(int kind) {
  static Z3_solver bv = nullptr, fp = nullptr, li = nullptr;
  if (kind == 0) { if (!bv) { bv = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV")); Z3_solver_inc_ref(C, bv); } return bv; }
  if (kind == 1) { if (!fp) { Z3_tactic t = Z3_mk_tactic(C, "qffpbv"); Z3_tactic_inc_ref(C, t); fp = Z3_mk_solver_from_tactic(C, t); Z3_solver_inc_ref(C, fp); } return fp; }
  if (!li) { li = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, li); } return li;
}
// applications of platform functions: equal arguments give equal results
static void collectUF(E e, std::unordered_set<E> &seen, std::vector<E> &out) { if (!e->hasfp || !seen.insert(e).second) return; if (e->a) collectUF(e->a, seen, out); if (e->b) collectUF(e->b, seen, out); if (e->c) collectUF(e->c, seen, out); if (e->k == K_UF) out.push_back(e); }
static std::vector<Z3_ast> congruence(const std::vector<E> &cs) {
  std::unordered_set<E> seen; std::vector<E> u; std::vector<Z3_ast> r; for (E c : cs) collectUF(c, seen, u);
  for (E x : u) if (x->w == 64) { E ok = mkOr(mkNot(fpIsNaN(x)), mkEq(x, mkC(0x7ff8000000000000ull, 64))); r.push_back(encBool(ok)); Z3_inc_ref(C, r.back()); }
  for (size_t i = 0; i < u.size(); i++) for (size_t j = 0; j < i; j++) { E x = u[i], y = u[j]; if (x->aux != y->aux || x->w != y->w) continue; E same = mkC(1, 1); if (x->a->w != y->a->w) continue; same = mkAnd(mkEq(x->a, y->a), x->b ? mkEq(x->b, y->b) : same); if (x->c) same = mkAnd(same, mkEq(x->c, y->c)); if (same->isC() && !same->v) continue; r.push_back(Z3_mk_implies(C, encBool(same), Z3_mk_eq(C, encBV(x), encBV(y)))); Z3_inc_ref(C, r.back()); }
  return r;
}
// outermost floating-point operations of the constraints
static bool fpArith(E e) { return e->k >= K_FADD && e->k <= K_FRINT; }
static void outerFP(E e, std::unordered_set<E> &seen, std::vector<E> &out) {
  if (!e->hasfp || !seen.insert(e).second) return;
  if (fpArith(e)) { out.push_back(e); return; }
  if (e->a) outerFP(e->a, seen, out); if (e->b) outerFP(e->b, seen, out); if (e->c) outerFP(e->c, seen, out);
}
// multiplications and divisions of the constraints, innermost first
static void mulsFP(E e, std::unordered_set<E> &seen, std::vector<E> &out) { if (!e->hasfp || !seen.insert(e).second) return; if (e->a) mulsFP(e->a, seen, out); if (e->b) mulsFP(e->b, seen, out); if (e->c) mulsFP(e->c, seen, out); if (e->k == K_FMUL || e->k == K_FDIV || e->k == K_FREM || e->k == K_FSQRT) out.push_back(e); }
// unsatisfiable even when floating-point operations may return anything (level 0: the outermost ones; level 1: products and
// quotients, equal for equal operands)? An over-approximation: only UNSAT counts
static bool abstractUnsat(const std::vector<E> &cs, const VarVec &vars, unsigned tmo, int level) {
  std::unordered_set<E> seen; std::vector<E> ops; for (E c : cs) if (level == 0) outerFP(c, seen, ops); else mulsFP(c, seen, ops); if (ops.empty()) return false;
  std::vector<Z3_ast> from, to, extra; g_z3err = false; struct App { E e; Z3_ast x, y, r; }; std::vector<App> apps;
  auto sub = [&](Z3_ast a) { Z3_ast r = Z3_substitute(C, a, from.size(), from.data(), to.data()); Z3_inc_ref(C, r); return r; };
  for (E e : ops) {
    Z3_ast f = encFP(e); std::string n = "abs" + std::to_string(e->id); Z3_ast c = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), Z3_get_sort(C, f)); Z3_inc_ref(C, c);
    if (level == 1) { App a{e, sub(encFP(e->a)), e->b ? sub(encFP(e->b)) : nullptr, c};
      for (auto &o : apps) if (o.e->k == e->k && o.e->w == e->w) { Z3_ast q[2] = {Z3_mk_eq(C, o.x, a.x), a.y ? Z3_mk_eq(C, o.y, a.y) : Z3_mk_true(C)}; Z3_ast t = Z3_mk_implies(C, Z3_mk_and(C, 2, q), Z3_mk_eq(C, o.r, c)); Z3_inc_ref(C, t); extra.push_back(t); }
      apps.push_back(a); }
    from.push_back(f); to.push_back(c);
  }
  Z3_solver s = mkSolver(1); Z3_solver_reset(C, s); Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), tmo); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
  for (uint32_t v : vars) { auto &vi = g_vars[v]; if (vi.ranged) { Z3_ast x = encBV(vi.e); Z3_solver_assert(C, s, Z3_mk_bvsle(C, bvnum((u128)vi.lo, vi.w), x)); Z3_solver_assert(C, s, Z3_mk_bvsle(C, x, bvnum((u128)vi.hi, vi.w))); } }
  for (E c : cs) { Z3_ast a = encBool(c); if (!a) return false; Z3_solver_assert(C, s, sub(a)); }
  for (Z3_ast a : congruence(cs)) Z3_solver_assert(C, s, sub(a)); for (Z3_ast a : extra) Z3_solver_assert(C, s, a);
  if (g_z3err) { g_z3err = false; return false; }
  g_ss.z3calls++; g_ss.fpCalls++; double t0 = now(); Z3_lbool r = Z3_solver_check(C, s); double dt = now() - t0; g_ss.time += dt; if (dt > g_ss.maxTime) g_ss.maxTime = dt;
  if (g_scfg.verbose && dt > 0.5) fprintf(stderr, "[z3 abstract %d %.2fs -> %d]\n", level, dt, r);
  if (g_z3err) { g_z3err = false; return false; }
  return r == Z3_L_FALSE;
}
// kind: 0 BV, 1 FP, 2 Int
static Res runZ3(int kind, const std::vector<E> &cs, const VarVec &vars, unsigned tmo, std::vector<std::pair<uint32_t, u128>> &mo) {
  Z3_solver s = mkSolver(kind); Z3_solver_reset(C, s);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), tmo); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
  g_z3err = false;
  for (uint32_t v : vars) {
    auto &vi = g_vars[v];
    if (kind == 2) {
      if (vi.w == 1) continue;
      Z3_ast x = preferU(vi.e) ? encU(vi.e) : encS(vi.e);
      s128 lo = preferU(vi.e) ? (vi.ranged ? vi.lo : 0) : vi.lo, hi = preferU(vi.e) ? (vi.ranged ? vi.hi : (s128)maskw(vi.w)) : vi.hi;
      Z3_solver_assert(C, s, Z3_mk_ge(C, x, inum(lo))); Z3_solver_assert(C, s, Z3_mk_le(C, x, inum(hi)));
    } else if (vi.ranged) {
      Z3_ast x = encBV(vi.e);
      Z3_solver_assert(C, s, Z3_mk_bvsle(C, bvnum((u128)vi.lo, vi.w), x)); Z3_solver_assert(C, s, Z3_mk_bvsle(C, x, bvnum((u128)vi.hi, vi.w)));
    }
  }
  for (E c : cs) { Z3_ast a = kind == 2 ? encIB(c) : encBool(c); if (!a) return R_UNKNOWN; Z3_solver_assert(C, s, a); }
  if (kind == 1) for (Z3_ast a : congruence(cs)) Z3_solver_assert(C, s, a);
  if (g_z3err) return R_UNKNOWN;
  g_ss.z3calls++; (kind == 0 ? g_ss.bvCalls : kind == 1 ? g_ss.fpCalls : g_ss.intCalls)++;
  if (!g_scfg.dumpDir.empty()) { static int n; std::string f = g_scfg.dumpDir + "/q" + std::to_string(n++) + "_" + std::to_string(kind) + ".smt2"; if (FILE *o = fopen(f.c_str(), "w")) { fputs(Z3_solver_to_string(C, s), o); fputs("(check-sat)\n", o); fclose(o); } }
  double t0 = now(); Z3_lbool r = Z3_solver_check(C, s); double dt = now() - t0; g_ss.time += dt; if (dt > g_ss.maxTime) g_ss.maxTime = dt;
  if (g_scfg.verbose && dt > 0.5) { fprintf(stderr, "[z3 kind=%d %.2fs -> %d, %zu constraints]\n", kind, dt, r, cs.size()); if (getenv("VSYM_D")) for (E c : cs) fprintf(stderr, "  SLOW: %s\n", show(c, atoi(getenv("VSYM_D"))).c_str()); }
  if (g_z3err) { g_z3err = false; return R_UNKNOWN; }
  if (r == Z3_L_FALSE) return R_UNSAT;
  if (r != Z3_L_TRUE) return R_UNKNOWN;
  Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m);
  bool ok = true; mo.clear();
  for (uint32_t v : vars) {
    auto &vi = g_vars[v]; u128 x = 0;
    Z3_ast c = kind == 2 ? (vi.w == 1 ? encIB(vi.e) : preferU(vi.e) ? encU(vi.e) : encS(vi.e)) : encBV(vi.e);
    if (!modelVal(m, c, x, kind == 2)) { ok = false; break; }
    mo.push_back({v, x & maskw(vi.w)});
  }
  Z3_model_dec_ref(C, m);
  if (!ok) return R_UNKNOWN;
  return R_SAT;
}
static bool checkModel(const std::vector<E> &cs, const std::vector<std::pair<uint32_t, u128>> &mo, const Model &base) {
  Model m = base; for (auto &p : mo) m.m[p.first] = p.second; newEpoch();
  for (E c : cs) if (!evalE(c, m)) return false;
  return true;
}
// a few telling values per variable, tried by evaluation before floating-point queries go to the solver; can only find models
static bool guessModel(const std::vector<E> &cs, const VarVec &vars, const Model &base, std::vector<std::pair<uint32_t, u128>> &mo) {
  if (vars.empty() || vars.size() > 3) return false;
  static const double D[] = {0.0, -0.0, 1.0, -1.0, 0.1, -0.1, 3.7, -3.7, 1.0000000000000002, 0.5, -0.5, 1.5, -1.5, 2.5, 1e10, -1e10, 1e300, -1e300, 5e-324, -5e-324, 2.2250738585072014e-308, 9223372036854775808.0, -9223372036854775808.0, INFINITY, -INFINITY, NAN};
  std::vector<std::vector<u128>> cand;
  for (uint32_t v : vars) {
    auto &vi = g_vars[v]; std::vector<u128> c; unsigned w = vi.w; u128 M = maskw(w); c.push_back(base.get(v) & M);
    auto add = [&](u128 x) { x &= M; if (vi.ranged && (sx(x, w) < vi.lo || sx(x, w) > vi.hi)) return; if (std::find(c.begin(), c.end(), x) == c.end()) c.push_back(x); };
    if (w == 64) for (double d : D) { uint64_t b; memcpy(&b, &d, 8); add(b); } else if (w == 32) for (double d : D) { float f = (float)d; uint32_t b; memcpy(&b, &f, 4); add(b); }
    if (vi.ranged) { add((u128)vi.lo); add((u128)vi.hi); add((u128)(vi.lo + 1)); }
    if (w <= 4) for (u128 x = 0; x <= M; x++) add(x); else for (int k : {0, 1, -1, 2, -2, 3, 100, -100}) add((u128)(s128)k);
    add(M >> 1); add((M >> 1) + 1); add((M >> 1) - 1);
    cand.push_back(c);
  }
  Model m = base; std::vector<size_t> ix(vars.size(), 0); size_t tries = 0;
  for (;;) {
    for (size_t i = 0; i < vars.size(); i++) m.m[vars[i]] = cand[i][ix[i]];
    newEpoch(); bool ok = true; for (E c : cs) if (!evalE(c, m)) { ok = false; break; }
    if (ok) { mo.clear(); for (size_t i = 0; i < vars.size(); i++) mo.push_back({vars[i], cand[i][ix[i]]}); return true; }
    if (++tries > 4000) return false;
    size_t i = 0; while (i < ix.size() && ++ix[i] == cand[i].size()) ix[i++] = 0; if (i == ix.size()) return false;
  }
}
static bool g_anyInt = true;
Res solve(const std::vector<E> &pc, E cond, const Model &base, Model &out) {
  init(); g_ss.queries++;
  if (cond->isC()) { if (!cond->v) return R_UNSAT; out = base; return R_SAT; }
  newEpoch(); if (evalE(cond, base)) { g_ss.modelHits++; if (&out != &base) out = base; return R_SAT; }
  // slice
  std::vector<char> used(pc.size(), 0); VarVec vars = *cond->vars; std::vector<E> cs; cs.push_back(cond);
  std::unordered_set<uint32_t> vset(vars.begin(), vars.end());
  bool ch = true; size_t scanned = 0;
  while (ch) { ch = false;
    for (size_t i = 0; i < pc.size(); i++) { if (used[i]) continue; bool hit = false; for (uint32_t v : *pc[i]->vars) if (vset.count(v)) { hit = true; break; }
      if (hit) { used[i] = 1; cs.push_back(pc[i]); for (uint32_t v : *pc[i]->vars) if (vset.insert(v).second) ch = true; } }
    if (++scanned > pc.size() + 2) break; }
  vars.assign(vset.begin(), vset.end()); std::sort(vars.begin(), vars.end());
  std::vector<uint32_t> key; for (E c : cs) key.push_back(c->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = g_cache.find(key);
  if (it != g_cache.end()) { g_ss.cacheHits++; if (it->second.r == R_SAT) { if (&out != &base) out = base; for (auto &p : it->second.m) out.m[p.first] = p.second; } return it->second.r; }
  bool fp = false, div = false, mul = false; for (E c : cs) { fp |= c->hasfp; div |= c->hasdiv; mul |= c->hasmul; }
  std::vector<std::pair<uint32_t, u128>> mo; Res r = R_UNKNOWN;
  auto attempt = [&](int kind, unsigned t) { if (r != R_UNKNOWN) return; r = runZ3(kind, cs, vars, t, mo); if (r == R_SAT && !checkModel(cs, mo, base)) { if (g_scfg.verbose) fprintf(stderr, "[model of kind %d failed validation]\n", kind); r = R_UNKNOWN; } };
  unsigned T = g_scfg.timeoutMs;
  if (fp) { if (guessModel(cs, vars, base, mo)) { r = R_SAT; g_ss.guessed++; } else if (abstractUnsat(cs, vars, std::min(1500u, T), 0) || abstractUnsat(cs, vars, std::min(3000u, T), 1)) r = R_UNSAT; attempt(1, T); }
  else if (div || mul) {
    bool ok = true; for (E c : cs) if (!encIB(c)) { ok = false; break; }
    if (ok) { attempt(0, 150); if (r == R_UNKNOWN && guessModel(cs, vars, base, mo)) { r = R_SAT; g_ss.guessed++; } attempt(2, std::min(2000u, T)); attempt(0, std::min(3000u, T)); attempt(2, T); attempt(0, T); }
    else { attempt(0, 150); if (r == R_UNKNOWN && guessModel(cs, vars, base, mo)) { r = R_SAT; g_ss.guessed++; } attempt(0, T); }
  } else { attempt(0, std::min(2000u, T)); if (r == R_UNKNOWN && guessModel(cs, vars, base, mo)) { r = R_SAT; g_ss.guessed++; } attempt(0, T); }
  if (r == R_SAT) g_ss.sat++; else if (r == R_UNSAT) g_ss.unsat++; else { g_ss.unknown++; if (g_scfg.verbose) for (E c : cs) fprintf(stderr, "  UNK: %s\n", show(c, getenv("VSYM_D") ? atoi(getenv("VSYM_D")) : 8).c_str()); }
  CacheEnt ce; ce.r = r; if (r == R_SAT) ce.m = mo; g_cache.emplace(std::move(key), std::move(ce));
  if (r == R_SAT) { if (&out != &base) out = base; for (auto &p : mo) out.m[p.first] = p.second; }
  return r;
}
