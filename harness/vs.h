// Harness API. The same harness source is (a) lowered to LLVM IR and executed symbolically by vsym and
// (b) compiled natively (g++, AddressSanitizer) to replay a solver model or a sampled path.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include "DotnetTypes.h"
using namespace DotnetLibrary;
extern "C" {
uint64_t vs_sym(const char *name, int bits);                   // any value of that width (zero extended)
int64_t vs_range(const char *name, int64_t lo, int64_t hi);    // any value in [lo,hi]
void vs_assume(bool c);
void vs_check(bool c, const char *label);                      // the property
void vs_cover(const char *label);                              // reachability witness
void vs_obs(const char *label, uint64_t v);                    // value compared between engine and native run
uint64_t vs_pick(uint64_t v);                                  // explore every feasible concrete value
int vs_tier(void);                                             // 0 quick, 1 thorough
void vs_known(const char *id, bool cond);                      // paths on which a listed known finding applies
void vs_known_end(const char *id);
void vs_stop(void);                                            // end this path
int vs_isfreed(void *p);
int vs_outlen(void); int vs_outchar(int i); void vs_outreset(void); // what the code wrote to its standard output
int vs_symbolic(void);                                         // 1 under vsym, 0 natively
uint64_t vs_ite(bool c, uint64_t a, uint64_t b);               // branch-free selection
}
// ---- histories: every entry also runs as a history (W_<entry>): a few complete earlier runs of the same body with
// concrete inputs, then the symbolic run, in one process. What the earlier calls left behind (caches, static
// buffers, shared results) must not show: not in the symbolic run, and earlier results must still read the same.
static int vsWarm, vsHist, vsFirst; static uint64_t vsSeed = 1; static bool vsDone;
static inline uint64_t vsNext() { vsSeed = vsSeed * 6364136223846793005ull + 1442695040888963407ull; return vsSeed >> 33; }
static inline void vsBreak() { throw 7; } // an earlier run whose inputs do not fit is given up
static inline int64_t h_range(const char *n, int64_t lo, int64_t hi) { if (!vsWarm) return vs_range(n, lo, hi); uint64_t w = (uint64_t)hi - (uint64_t)lo, k = vsNext() % 8, r = vsNext() | vsNext() << 31; return k == 0 ? lo : k == 1 ? hi : k == 2 ? (int64_t)((uint64_t)lo + w / 2) : k == 3 && lo <= 48 && hi >= 122 ? (int64_t)(48 + r % 75) : k <= 5 && w > 100 && lo <= 0 && hi >= 64 ? (int64_t)(r % 64) : w + 1 == 0 ? (int64_t)r : (int64_t)((uint64_t)lo + r % (w + 1)); }
static inline uint64_t h_sym(const char *n, int bits) { if (!vsWarm) return vs_sym(n, bits); uint64_t k = vsNext() % 6, r = vsNext() | vsNext() << 31 | vsNext() << 62; if (k == 0) r = vsNext() % 4; else if (k == 1) r = vsNext() % 4096; else if (k == 2) r = 0 - vsNext() % 4096; else if (k == 3) r &= 0xffffffff; return bits >= 64 ? r : r & ((1ull << bits) - 1); }
static inline void h_assume(bool c) { if (!vsWarm) vs_assume(c); else if (!c) vsBreak(); }
static inline void h_stop() { if (!vsWarm && !vsFirst) vs_stop(); else { vsDone = true; vsBreak(); } }
static inline void h_cover(const char *l) { if (!vsWarm) vs_cover(l); }
static inline void h_obs(const char *l, uint64_t v) { if (!vsWarm) vs_obs(l, v); }
#define vs_range h_range
#define vs_sym h_sym
#define vs_assume h_assume
#define vs_stop h_stop
#define vs_cover h_cover
#define vs_obs h_obs
struct Kept { String *s; int n; Char c[24]; }; static Kept vsKept[8]; static int vsNk;
static inline void vsKeep(String *s) { if (!vsWarm || s == nullptr) return; Kept &k = vsKept[vsNk++ % 8]; k.s = s; k.n = s->get_Length(); for (int i = 0; i < k.n && i < 24; i++) k.c[i] = s->get_Buffer()[i]; }
static inline void vsHistory(void (*f)(void)) {
  vsHist = 1; if (vs_tier()) vsSeed = 1 + vs_pick((uint64_t)vs_range("history", 0, 3)); vsWarm = 1; int done = 0; for (int i = 0; i < 12 && done < 3; i++) { vsDone = false; try { f(); vsDone = true; } catch (int) {} done += vsDone; } vsWarm = 0; f();
  for (int i = 0; i < vsNk && i < 8; i++) { Kept &k = vsKept[i]; bool same = k.s->get_Length() == k.n; for (int j = 0; same && j < k.n && j < 24; j++) same = k.s->get_Buffer()[j] == k.c[j]; vs_check(same, "earlier results stay as they were"); }
}
// or twice in a row (X_<entry>), both runs symbolic
static inline void vsTwice(void (*f)(void)) { vsHist = vsFirst = 1; try { f(); } catch (int) {} vsFirst = 0; f(); }
#define ENTRY(n) static void B_##n(void); extern "C" void X_##n(void) { vsTwice(B_##n); } extern "C" void E_##n(void) { B_##n(); } extern "C" void W_##n(void) { vsHistory(B_##n); } static void B_##n(void)
static inline bool THOROUGH() { return vs_tier() != 0; }
static inline bool s_bool(const char *n) { return vs_sym(n, 1) != 0; }
static inline uint8_t s_u8(const char *n) { return (uint8_t)vs_sym(n, 8); }
static inline int8_t s_i8(const char *n) { return (int8_t)vs_sym(n, 8); }
static inline uint16_t s_u16(const char *n) { return (uint16_t)vs_sym(n, 16); }
static inline int16_t s_i16(const char *n) { return (int16_t)vs_sym(n, 16); }
static inline uint32_t s_u32(const char *n) { return (uint32_t)vs_sym(n, 32); }
static inline int32_t s_i32(const char *n) { return (int32_t)vs_sym(n, 32); }
static inline uint64_t s_u64(const char *n) { return (uint64_t)vs_sym(n, 64); }
static inline int64_t s_i64(const char *n) { return (int64_t)vs_sym(n, 64); }
static inline double bits2d(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static inline uint64_t d2bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static inline float bits2f(uint32_t b) { float d; memcpy(&d, &b, 4); return d; }
static inline uint32_t f2bits(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }
static inline double s_dbl(const char *n) { return bits2d(vs_sym(n, 64)); }
static inline float s_flt(const char *n) { return bits2f((uint32_t)vs_sym(n, 32)); }
// a length/size explored value by value
static inline int p_range(const char *n, int lo, int hi) { return (int)(int64_t)vs_pick((uint64_t)vs_range(n, lo, hi)); }

// the same, but in a history only the value of the last earlier run and both ends
static inline int p_few(const char *n, int lo, int hi) {
  struct Slot { const char *n; int v; }; static Slot last[8]; static int nl; int i = 0; while (i < nl && strcmp(last[i].n, n)) i++;
  if (vsWarm) { if (i == nl && nl < 8) last[nl++].n = n; return last[i & 7].v = p_range(n, lo, hi); } if (!vsHist) return p_range(n, lo, hi);
  int k = p_range(n, 0, 2); return k == 0 ? lo : k == 1 ? hi : i < nl ? last[i].v : lo;
}
// outcome of a call: which exception (they are thrown as pointers), if any
enum Ex { X_NONE = 0, X_INDEX, X_NULL, X_RANK, X_RANGE, X_ARG, X_NOTIMPL, X_CAST, X_INVALID, X_FORMAT, X_OVERFLOW, X_MINMAX, X_ARITH, X_DIV0, X_OTHER };
template <class F> static inline int outcome(F f) {
  try { f(); return X_NONE; }
  catch (IndexOutOfRangeException *) { return X_INDEX; } catch (ArgumentNullException *) { return X_NULL; }
  catch (RankException *) { return X_RANK; } catch (ArgumentOutOfRangeException *) { return X_RANGE; }
  catch (ArgumentException *) { return X_ARG; } catch (NotImplementedException *) { return X_NOTIMPL; }
  catch (InvalidCastException *) { return X_CAST; } catch (InvalidOperationException *) { return X_INVALID; }
  catch (FormatException *) { return X_FORMAT; } catch (OverflowException *) { return X_OVERFLOW; }
  catch (ThrowMinMaxException *) { return X_MINMAX; } catch (ArithmeticException *) { return X_ARITH; }
  catch (DivideByZeroException *) { return X_DIV0; } catch (Exception *) { return X_OTHER; }
}
static inline bool argerr(int x) { return x == X_RANGE || x == X_ARG || x == X_NULL; } // an argument error of any kind
// ---- text helpers -----------------------------------------------------------
// symbolic characters: any code in [0, 0x10ffff]; text length concrete
static inline Char s_char(const char *n) { return (Char)vs_range(n, 0, 0x10ffff); }
static inline Char s_nz(const char *n) { return (Char)vs_range(n, 1, 0x10ffff); }
static inline Char s_ascii(const char *n) { return (Char)vs_range(n, 1, 127); }
static inline String *mkString(const Char *c, int n) { return new String((Char *)c, 0, n); }
static inline bool eqChars(const Char *a, const Char *b, int n) { bool r = true; for (int i = 0; i < n; i++) r = r & (a[i] == b[i]); return r; }
static inline bool isText(String *s, const Char *c, int n) { vsKeep(s); if (s == nullptr || s->get_Length() != n) return false; return eqChars(s->get_Buffer(), c, n) & (s->get_Buffer()[n] == 0); }
// a position in or around something of n elements: both ends, the middle, far outside
static inline int edge(const char *nm, int n) { static const int d[] = {INT32_MIN, -1, 0, 1, 2}; int k = p_few(nm, 0, 12); return k < 5 ? d[k] : k == 5 ? n / 2 : k == 6 ? INT32_MAX : k == 7 ? n / 2 + 1 : n - 11 + k; }
static inline int inner(const char *nm, int n) { int k = p_few(nm, 0, 6); return k < 2 ? k : k == 2 ? n / 2 : k == 3 ? n / 3 : n - 6 + k; } // 0..n only, for n >= 2
static inline int hugeLen(const char *nm) { static const int q[] = {260, 600, 1030, 4100}, th[] = {200, 256, 257, 260, 300, 400, 512, 513, 600, 1000, 1024, 1025, 1030, 2050, 4096, 4100, 8200}; return THOROUGH() ? th[p_range(nm, 0, 16)] : q[p_range(nm, 0, 3)]; }
static inline int longLen(const char *nm) { static const int q[] = {17, 33, 130}, th[] = {9, 15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 130, 140, 257}; return THOROUGH() ? th[p_range(nm, 0, 14)] : q[p_range(nm, 0, 2)]; }
// memory with canaries that the code under test must not touch; natively backed by its own heap block (ASan)
