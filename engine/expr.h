// Hash-consed bit-vector / IEEE-bits expression DAG with a peephole simplifier.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <memory>
#include <algorithm>
#include <cassert>
typedef unsigned __int128 u128;
typedef __int128 s128;

enum Kind : uint8_t {
  K_CONST, K_VAR,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_NOT, K_SHL, K_LSHR, K_ASHR,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
  K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT,
  // IEEE operations over bit patterns (operand width 32 or 64); NaN results are canonical
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FREM, K_FSQRT, K_FRINT,
  K_F2SI, K_F2UI, K_SI2F, K_UI2F, K_FCVT,
  K_UF // a function of the platform: uninterpreted for the solver, computed by the platform when evaluating (aux: index)
};

typedef std::vector<uint32_t> VarVec; // sorted
struct Expr {
  Kind k; uint16_t w; uint32_t aux; uint32_t id;
  const Expr *a, *b, *c;
  u128 v;            // constant
  u128 lo, hi;       // unsigned range
  s128 slo, shi;     // signed range
  const VarVec *vars;
  uint8_t tz;        // known trailing zero bits
  bool hasfp, hasdiv, hasmul;
  mutable uint32_t epoch; mutable u128 ev;
  bool isC() const { return k == K_CONST; }
};
typedef const Expr *E;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sx(u128 v, unsigned w) {
  if (w >= 128) return (s128)v;
  u128 m = (u128)1 << (w - 1);
  return (s128)((v ^ m) - m);
}
std::string u128s(u128 v);

struct VarInfo { std::string name; unsigned w; bool ranged; s128 lo, hi; E e; };
extern std::vector<VarInfo> g_vars;

E mkC(u128 v, unsigned w);
inline E mkB(bool b) { return mkC(b, 1); }
E mkVar(const std::string &name, unsigned w);
E mkRangedVar(const std::string &name, unsigned w, s128 lo, s128 hi);
E mkAdd(E a, E b); E mkSub(E a, E b); E mkMul(E a, E b);
E mkUDiv(E a, E b); E mkSDiv(E a, E b); E mkURem(E a, E b); E mkSRem(E a, E b); E mkSDivRemKnown(E a, E b, bool neg, bool rem);
E mkAnd(E a, E b); E mkOr(E a, E b); E mkXor(E a, E b); E mkNot(E a);
E mkShl(E a, E b); E mkLShr(E a, E b); E mkAShr(E a, E b);
E mkEq(E a, E b); E mkUlt(E a, E b); E mkUle(E a, E b); E mkSlt(E a, E b); E mkSle(E a, E b);
E mkIte(E c, E a, E b); E mkConcat(E hi, E lo); E mkExtract(E a, unsigned off, unsigned w);
E mkZExt(E a, unsigned w); E mkSExt(E a, unsigned w);
inline E mkTrunc(E a, unsigned w) { return w == a->w ? a : mkExtract(a, 0, w); }
inline E mkZT(E a, unsigned w) { return w > a->w ? mkZExt(a, w) : mkTrunc(a, w); }
inline E mkNe(E a, E b) { return mkNot(mkEq(a, b)); }
// floating point on bit patterns
E mkF(Kind k, E a, E b);                 // FADD FSUB FMUL FDIV FREM
E mkFSqrt(E a);
enum { RM_RNE = 0, RM_DOWN = 1, RM_UP = 2, RM_TRUNC = 3, RM_RNA = 4 };
E mkFRint(E a, unsigned rm);
E mkF2SI(E a, unsigned w); E mkF2UI(E a, unsigned w); // only meaningful in range
E mkSI2F(E a, unsigned fw); E mkUI2F(E a, unsigned fw);
E mkFCvt(E a, unsigned fw);
typedef u128 (*UFn)(u128, u128, u128);
E mkUF(const std::string &name, UFn f, unsigned w, E a, E b = 0, E c = 0);
E fpIsNaN(E a); E fpOEQ(E a, E b); E fpOLT(E a, E b); E fpOLE(E a, E b);
E fpNeg(E a); E fpAbs(E a); E fpCopySign(E a, E b);
E x86F2SI(E a, unsigned w); E x86F2UI(E a, unsigned w);

struct Model {
  std::unordered_map<uint32_t, u128> m; // var index -> value
  u128 get(uint32_t var) const;
};
u128 evalE(E e, const Model &m);
void newEpoch(); // evaluation caches are keyed on an epoch; call before evaluating with another model
inline u128 evalFresh(E e, const Model &m) { newEpoch(); return evalE(e, m); }
std::string show(E e, int depth = 6);
size_t numExprs();
