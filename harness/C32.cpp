// C32 integer Math functions
#include "vs.h"
#include <limits>
//@bound every argument of every integer overload (all widths in full)
typedef __int128 W;
template <class T> static void abs1(T v) { // overloads that return a real number would round
  T r = 0; int x = outcome([&] { auto a = Math::Abs(v); r = (T)a; vs_check((W)a == (v < 0 ? -(W)v : (W)v), "magnitude, exactly"); }); bool fits = v != std::numeric_limits<T>::min();
  if (fits) { vs_check(x == X_NONE && r >= 0, "a representable magnitude is returned"); vs_cover("abs"); } else { vs_check(x == X_OVERFLOW, "the smallest number has no magnitude of its type"); vs_cover("abs overflow"); }
}
ENTRY(abs) { switch (p_range("type", 0, 3)) { case 0: abs1<SByte>(s_i8("v")); break; case 1: abs1<Int16>(s_i16("v")); break; case 2: abs1<Int32>(s_i32("v")); break; default: abs1<Int64>(s_i64("v")); } } //@ twice=1
template <class T> static void sign1(T v) { int r = 9; int x = outcome([&] { r = Math::Sign(v); }); vs_check(x == X_NONE && r == (v > 0) - (v < 0), "sign"); vs_cover("sign"); }
ENTRY(sign) { switch (p_range("type", 0, 3)) { case 0: sign1<SByte>(s_i8("v")); break; case 1: sign1<Int16>(s_i16("v")); break; case 2: sign1<Int32>(s_i32("v")); break; default: sign1<Int64>(s_i64("v")); } } //@ twice=1
template <class T> static void order(T a, T b, T c) {
  int x = outcome([&] { T m = Math::Min(a, b), n = Math::Max(a, b); vs_check(m == (a < b ? a : b), "smaller of two"); vs_check(n == (a < b ? b : a), "larger of two"); }); vs_check(x == X_NONE, "no exception"); vs_cover("minmax");
  T r = 0; x = outcome([&] { r = Math::Clamp(a, b, c); }); if (b > c) { vs_check(x == X_MINMAX || x == X_ARG, "limits in the wrong order raise"); vs_cover("clamp refused"); } else { vs_check(x == X_NONE && r == (a < b ? b : a > c ? c : a), "nearest value within the limits"); vs_cover("clamp"); }
}
ENTRY(compare) { switch (p_range("type", 0, 7)) { //@ twice=1
  case 0: { SByte a = s_i8("a"), b = s_i8("b"), c = s_i8("c"); order<SByte>(a, b, c); break; } case 1: { Byte a = s_u8("a"), b = s_u8("b"), c = s_u8("c"); order<Byte>(a, b, c); break; }
  case 2: { Int16 a = s_i16("a"), b = s_i16("b"), c = s_i16("c"); order<Int16>(a, b, c); break; } case 3: { UInt16 a = s_u16("a"), b = s_u16("b"), c = s_u16("c"); order<UInt16>(a, b, c); break; }
  case 4: { Int32 a = s_i32("a"), b = s_i32("b"), c = s_i32("c"); order<Int32>(a, b, c); break; } case 5: { UInt32 a = s_u32("a"), b = s_u32("b"), c = s_u32("c"); order<UInt32>(a, b, c); break; }
  case 6: { Int64 a = s_i64("a"), b = s_i64("b"), c = s_i64("c"); order<Int64>(a, b, c); break; } default: { UInt64 a = s_u64("a"), b = s_u64("b"), c = s_u64("c"); order<UInt64>(a, b, c); } } } //@ shards=2
template <class T> static void divrem(T a, T b) {
  T q = 7, r = 77; int x = outcome([&] { q = Math::DivRem(a, b, r); });
  if (b == 0) { vs_check(x == X_DIV0, "division by zero raises"); vs_cover("divrem zero"); return; }
  if (a == std::numeric_limits<T>::min() && b == -1) { vs_check(x == X_OVERFLOW, "a quotient that does not fit raises"); vs_cover("divrem overflow"); return; }
  vs_check(x == X_NONE, "every other quotient is returned"); vs_check(q == a / b, "quotient, truncated toward zero"); vs_check(r == a % b, "remainder"); vs_cover("divrem");
}
ENTRY(divrem32) { Int32 a = s_i32("a"), b = s_i32("b"); divrem<Int32>(a, b); } //@ twice=1
ENTRY(divrem64) { Int64 a = s_i64("a"), b = s_i64("b"); divrem<Int64>(a, b); } //@ twice=1
ENTRY(divide) { Int64 a = s_i64("a"), b = s_i64("b"), q = 7; int x = outcome([&] { q = Math::Divide(a, b); }); if (b == 0) { vs_check(x == X_DIV0, "division by zero raises"); vs_cover("divide zero"); return; } //@ twice=1
  if (a == INT64_MIN && b == -1) { vs_check(x == X_OVERFLOW, "a quotient that does not fit raises"); vs_cover("divide overflow"); return; } vs_check(x == X_NONE && q == a / b, "quotient, truncated toward zero"); vs_cover("divide"); }
ENTRY(bigmul) { Int32 a = s_i32("a"), b = s_i32("b"); vs_check(Math::BigMul(a, b) == (int64_t)a * (int64_t)b, "full product"); vs_cover("bigmul"); } //@ twice=1
