// C33 floating-point Math primitives
#include "vs.h"
//@bound every double and float (NaN with any payload, signed zeros, infinities, denormals); rounding to digits for every double, every 32-bit digit count and every mode
//@assume in `digits` Math::Round(Double) is stood for by round-half-to-even, which `round` decides for every double; scalbn, remainder and fma are functions of the platform (uninterpreted)
static bool sameD(double a, double b) { return ((a != a) & (b != b)) | (d2bits(a) == d2bits(b)); } // NaNs alike
static bool sameF(float a, float b) { return ((a != a) & (b != b)) | (f2bits(a) == f2bits(b)); }
static bool negD(double a) { return (d2bits(a) >> 63) != 0; }
ENTRY(unary) { double v = s_dbl("v"); int x = outcome([&] { vs_check(sameD(Math::Abs(v), __builtin_fabs(v)), "Abs"); vs_check(sameD(Math::Floor(v), __builtin_floor(v)), "Floor"); vs_check(sameD(Math::Ceiling(v), __builtin_ceil(v)), "Ceiling"); vs_check(sameD(Math::Truncate(v), __builtin_trunc(v)), "Truncate"); vs_check(sameD(Math::Sqrt(v), __builtin_sqrt(v)), "Sqrt"); }); vs_check(x == X_NONE, "no exception"); vs_cover("unary"); } //@ twice=1
ENTRY(absf) { float v = s_flt("v"); double r = Math::Abs(v); vs_check(sameD(r, (double)__builtin_fabsf(v)), "Abs of a float"); vs_cover("absf"); } //@ twice=1
template <class T> static void sign1(T v) { int r = 9, x = outcome([&] { r = Math::Sign(v); }); if (v != v) { vs_check(x == X_ARITH, "NaN has no sign"); vs_cover("nan"); } else { vs_check(x == X_NONE && r == (v > 0) - (v < 0), "sign"); vs_cover("sign"); } }
ENTRY(sign) { if (p_range("type", 0, 1)) sign1<float>(s_flt("v")); else sign1<double>(s_dbl("v")); } //@ twice=1
// the larger of two: NaN wins, then the larger number, then +0 over -0
ENTRY(minmax) { double a = s_dbl("a"), b = s_dbl("b"); bool nan = (a != a) | (b != b); int x = outcome([&] { //@ twice=1
    double M = Math::Max(a, b), m = Math::Min(a, b); if (nan) { vs_check((M != M) & (m != m), "NaN when either is NaN"); vs_cover("nan"); }
    else { vs_check(sameD(M, a > b || (a == b && negD(b)) ? a : b), "larger, +0 over -0"); vs_check(sameD(m, a < b || (a == b && negD(a)) ? a : b), "smaller, -0 under +0"); vs_cover("numbers"); } }); vs_check(x == X_NONE, "no exception"); }
ENTRY(minmaxf) { float a = s_flt("a"), b = s_flt("b"); bool nan = (a != a) | (b != b), na = (f2bits(a) >> 31) != 0, nb = (f2bits(b) >> 31) != 0; float M = Math::Max(a, b), m = Math::Min(a, b); if (nan) { vs_check((M != M) & (m != m), "NaN when either is NaN"); vs_cover("nan"); } else { vs_check(sameF(M, a > b || (a == b && nb) ? a : b), "larger"); vs_check(sameF(m, a < b || (a == b && na) ? a : b), "smaller"); vs_cover("numbers"); } } //@ twice=1
ENTRY(magnitude) { double a = s_dbl("a"), b = s_dbl("b"); bool nan = (a != a) | (b != b); double M = Math::MaxMagnitude(a, b), m = Math::MinMagnitude(a, b), p = __builtin_fabs(a), q = __builtin_fabs(b); if (nan) { vs_check((M != M) & (m != m), "NaN when either is NaN"); vs_cover("nan"); return; } //@ twice=1
  vs_check(sameD(M, p > q || (p == q && !negD(a)) ? a : b), "larger magnitude, the positive one on a tie"); vs_check(sameD(m, p < q || (p == q && negD(a)) ? a : b), "smaller magnitude, the negative one on a tie"); vs_cover("numbers"); }
template <class T> static void clamp1(T v, T lo, T hi) { T r = 0; int x = outcome([&] { r = Math::Clamp(v, lo, hi); }); if (lo > hi) { vs_check(x == X_MINMAX || x == X_ARG, "limits in the wrong order raise"); vs_cover("refused"); return; }
  vs_check(x == X_NONE, "no exception"); T e = v < lo ? lo : v > hi ? hi : v; vs_check((r != r && e != e) || sizeof(T) == 4 ? sameF(r, e) : sameD(r, e), "nearest value within the limits, NaN stays"); vs_cover("clamp"); }
ENTRY(clamp) { if (p_range("type", 0, 1)) { float a = s_flt("a"), b = s_flt("b"), c = s_flt("c"); clamp1<float>(a, b, c); } else { double a = s_dbl("a"), b = s_dbl("b"), c = s_dbl("c"); clamp1<double>(a, b, c); } } //@ twice=1
ENTRY(copysign) { double a = s_dbl("a"), b = s_dbl("b"); double r = Math::CopySign(a, b); bool neg = (b != b) | negD(b); uint64_t e = (d2bits(a) & ~(1ull << 63)) | ((uint64_t)neg << 63); vs_check((a != a) & (r != r) | (d2bits(r) == e), "magnitude of the first with the sign of the second (NaN counts as negative)"); vs_cover("copysign"); } //@ twice=1
// nothing lies between a number and its neighbour
ENTRY(neighbours) { double v = s_dbl("v"), y = s_dbl("y"); double up = Math::BitIncrement(v), dn = Math::BitDecrement(v), inf = __builtin_inf(); if (v != v) { vs_check((up != up) & (dn != dn), "NaN stays NaN"); vs_cover("nan"); return; } //@ twice=1
  if (v == inf) vs_check(up == inf, "no number above infinity"); else vs_check(up > v && !((y > v) & (y < up)), "BitIncrement is the next larger number"); if (v == -inf) vs_check(dn == -inf, "no number below minus infinity"); else vs_check(dn < v && !((y < v) & (y > dn)), "BitDecrement is the next smaller number"); vs_cover("neighbours"); }
// every double by its exponent: below 1/2, each power from 1/2 to 2^52 apart, and above
ENTRY(round) { //@ shards=6 cost=2
  int c = p_range("exponent", 0, 55); uint64_t sg = vs_sym("sign", 1), m = vs_range("mantissa", 0, (1ll << 52) - 1), e; if (c == 0) e = (uint64_t)vs_range("small", 0, 0x3fd); else if (c == 55) e = (uint64_t)vs_range("large", 0x434, 0x7ff); else e = 0x3fd + c;
  double v = bits2d(sg << 63 | e << 52 | m); double r = Math::Round(v); vs_check(sameD(r, __builtin_rint(v)), "Round is half to even"); vs_cover("round"); }
// in `digits` only: Round stands for what `round` decides of it
extern "C" double vsl_E_digits_ZN13DotnetLibrary4Math5RoundEd(double x) { return __builtin_rint(x); }
// half away from zero by parts; `away` shows it to be round(y) for every double, so that the library's answer may take either form below
static double away(double y) { double t, f = __builtin_modf(y, &t); if (__builtin_fabs(f) >= 0.5) { if (f < 0) t += -1; else if (f > 0) t += 1; } return t; }
ENTRY(away) { //@ shards=4
  int c = p_range("exponent", 0, 55); uint64_t sg = vs_sym("sign", 1), m = vs_range("mantissa", 0, (1ll << 52) - 1), e; if (c == 0) e = (uint64_t)vs_range("small", 0, 0x3fd); else if (c == 55) e = (uint64_t)vs_range("large", 0x434, 0x7ff); else e = 0x3fd + c;
  double v = bits2d(sg << 63 | e << 52 | m); vs_check(sameD(away(v), __builtin_round(v)), "half away from zero by parts"); vs_cover("away"); }
ENTRY(digits) { //@ shards=8 cost=3 tmo=400 ttmo=1500 qt=20000
  int d = p_range("digits", 0, 15), mode = p_range("mode", 0, 5); double v = s_dbl("v"), r = 0; int x = outcome([&] { r = mode == 5 ? Math::Round(v, d) : Math::Round(v, d, (MidpointRounding)mode); }); vs_check(x == X_NONE, "no exception");
  double p = 1; for (int i = 0; i < d; i++) p *= 10; if (!(__builtin_fabs(v) < 1e16)) { vs_check(sameD(r, v), "large values and NaN are left alone"); vs_cover("large"); return; }
  double y = v * p; if (mode == 1) { double z = __builtin_round(y) / p; y = away(y); vs_check(sameD(r, y / p) || sameD(r, z), "scaled, rounded half away from zero, scaled back"); vs_cover("away"); return; } y = mode == 2 ? __builtin_trunc(y) : mode == 3 ? __builtin_floor(y) : mode == 4 ? __builtin_ceil(y) : __builtin_rint(y); vs_check(sameD(r, y / p), "scaled, rounded as the mode says, scaled back"); vs_cover("rounded"); }
ENTRY(refused) { int32_t d = s_i32("digits"), mode = s_i32("mode"); double v = s_dbl("v"); bool bd = (d < 0) | (d > 15), bm = (mode < 0) | (mode > 4); vs_assume(bd | bm); if (!bd) d = (int32_t)vs_pick((uint64_t)(int64_t)d); int x = outcome([&] { Math::Round(v, d, (MidpointRounding)mode); }); vs_check(bd ? x == X_RANGE || x == X_ARG : x == X_ARG, "invalid digits or mode raise"); if (bd) vs_cover("digits"); else vs_cover("mode"); //@ qt=30000 tmo=120
  x = outcome([&] { Math::Round(v, d); }); vs_check((x == X_RANGE) == bd, "invalid digits raise"); }
ENTRY(divide) { double a = s_dbl("a"), b = s_dbl("b"); double r = 0; int x = outcome([&] { r = Math::Divide(a, b); }); vs_check(x == X_NONE && sameD(r, a / b), "IEEE quotient"); vs_cover("divide"); } //@ twice=1
ENTRY(scaleb) { double v = s_dbl("v"); int32_t n = s_i32("n"); vs_check(sameD(Math::ScaleB(v, n), __builtin_scalbn(v, n)), "ScaleB"); vs_cover("scaleb"); } //@ twice=1
ENTRY(fma) { double a = s_dbl("a"), b = s_dbl("b"), c = s_dbl("c"); vs_check(sameD(Math::FusedMultiplyAdd(a, b, c), __builtin_fma(a, b, c)), "one rounding"); vs_cover("fma"); } //@ twice=1
ENTRY(remainder) { double a = s_dbl("a"), b = s_dbl("b"); vs_check(sameD(Math::IEEERemainder(a, b), __builtin_remainder(a, b)), "IEEE remainder"); vs_cover("remainder"); } //@ twice=1
// 2^r <= |v| < 2^(r+1), by the encoding
ENTRY(ilogb) { double v = s_dbl("v"); int r = 0, x = outcome([&] { r = Math::ILogB(v); }); vs_check(x == X_NONE, "no exception"); uint64_t b = d2bits(v), e = b >> 52 & 0x7ff, m = b & 0xfffffffffffffull; //@ twice=1
  if (v == 0) { vs_check(r == INT32_MIN, "zero"); vs_cover("zero"); } else if (e == 0x7ff) { vs_check(r == INT32_MAX, "infinity and NaN"); vs_cover("not finite"); } else if (e) { vs_check(r == (int)e - 1023, "exponent of a normal number"); vs_cover("normal"); }
  else { int k = r + 1074; vs_check(k >= 0 && k < 52 && (m >> k) == 1, "exponent of a subnormal number"); vs_cover("subnormal"); } }
ENTRY(parts) { uint64_t b = s_u64("bits"); vs_check(Math::ExtractExponentFromBits(b) == (int)(b >> 52 & 0x7ff) && Math::ExtractSignificandFromBits(b) == (b & 0xfffffffffffffull), "exponent and significand of the encoding"); vs_cover("parts"); } //@ twice=1
ENTRY(modulus) { double a = s_dbl("a"), b = s_dbl("b"); vs_check(sameD(DoubleValue::Modulus(a, b), __builtin_fmod(a, b)), "remainder of a truncated quotient"); vs_cover("modulus"); } //@ twice=1
ENTRY(modulusf) { float a = s_flt("a"), b = s_flt("b"); float r = SingleValue::Modulus(a, b); vs_check(sameF(r, __builtin_fmodf(a, b)), "remainder of a truncated quotient"); vs_cover("modulus of floats"); } //@ twice=1
