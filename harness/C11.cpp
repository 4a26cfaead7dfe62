// C11 boxed comparisons and equality follow the values
#include "vs.h"
//@bound every pair of values of Boolean, Char (32-bit codes), SByte, Byte, Int16, UInt16, Int32, UInt32, Int64, UInt64; the other operand as a value, a boxed value, null, or any other kind of object with any value
static int sgn(int x) { return (x > 0) - (x < 0); }
static Object *foreign(int k) {
  switch (k) {
  case 0: return new Object(); case 1: return new BooleanValue(s_bool("fb")); case 2: return new CharValue((Char)s_i32("fc")); case 3: return new SByteValue(s_i8("f8")); case 4: return new ByteValue(s_u8("fu8"));
  case 5: return new Int16Value(s_i16("f16")); case 6: return new UInt16Value(s_u16("fu16")); case 7: return new Int32Value(s_i32("f32")); case 8: return new UInt32Value(s_u32("fu32")); case 9: return new Int64Value(s_i64("f64")); case 10: return new UInt64Value(s_u64("fu64"));
  case 11: return new SingleValue(s_flt("ff")); case 12: return new DoubleValue(s_dbl("fd")); case 13: { DateTime d; d.value = s_i64("fdt"); return new DateTimeValue(d); } case 14: { TimeSpan t; t.value = s_i64("fts"); return new TimeSpanValue(t); }
  default: { Char c[1] = {s_char("fs")}; return mkString(c, 1); } }
}
template <class V, class T> static void pair(T a, T b, int self) {
  V x(a), y(b); int want = a < b ? -1 : a > b ? 1 : 0;
  vs_check(sgn(x.CompareTo(b)) == want, "CompareTo(value) has the sign of the comparison"); vs_check(sgn(x.CompareTo((Object *)&y)) == want, "CompareTo(boxed) has the sign of the comparison");
  vs_check(sgn(x.CompareTo(b)) == -sgn(y.CompareTo(a)), "CompareTo is antisymmetric");
  vs_check(x.Equals(b) == (a == b), "Equals(value)"); vs_check(x.Equals((Object *)&y) == (a == b), "Equals(boxed)"); vs_check(Object::Equals(&x, &y) == (a == b), "static Equals"); vs_check(x.Equals((Object *)&x), "reflexive");
  vs_cover("pair");
}
template <class V, class T> static void other(T a, int self) {
  V x(a); bool e = true; int r = 0; int o = outcome([&] { e = x.Equals((Object *)nullptr); }); vs_check(o == X_NONE && !e, "not equal to null");
  e = Object::Equals(&x, nullptr) || Object::Equals(nullptr, &x); vs_check(!e, "static Equals with null is false");
  o = outcome([&] { r = x.CompareTo((Object *)nullptr); }); vs_check(o == X_NONE && r > 0, "sorts after null");
  int k = p_range("kind", 0, 15); if (k == self) return; Object *f = foreign(k); e = true; o = outcome([&] { e = x.Equals(f); }); vs_check(o == X_NONE && !e, "not equal to another kind of object");
  o = outcome([&] { r = x.CompareTo(f); }); vs_check(o == X_ARG, "ordering against another kind raises an argument error"); vs_cover("other");
}
ENTRY(p_bool) { bool a = s_bool("a"), b = s_bool("b"); pair<BooleanValue, Boolean>(a, b, 1); } //@ twice=1
ENTRY(p_char) { Char a = (Char)s_i32("a"), b = (Char)s_i32("b"); pair<CharValue, Char>(a, b, 2); } //@ twice=1
ENTRY(p_i8) { SByte a = s_i8("a"), b = s_i8("b"); pair<SByteValue, SByte>(a, b, 3); } //@ twice=1
ENTRY(p_u8) { Byte a = s_u8("a"), b = s_u8("b"); pair<ByteValue, Byte>(a, b, 4); } //@ twice=1
ENTRY(p_i16) { Int16 a = s_i16("a"), b = s_i16("b"); pair<Int16Value, Int16>(a, b, 5); } //@ twice=1
ENTRY(p_u16) { UInt16 a = s_u16("a"), b = s_u16("b"); pair<UInt16Value, UInt16>(a, b, 6); } //@ twice=1
ENTRY(p_i32) { Int32 a = s_i32("a"), b = s_i32("b"); pair<Int32Value, Int32>(a, b, 7); } //@ twice=1
ENTRY(p_u32) { UInt32 a = s_u32("a"), b = s_u32("b"); pair<UInt32Value, UInt32>(a, b, 8); } //@ twice=1
ENTRY(p_i64) { Int64 a = s_i64("a"), b = s_i64("b"); pair<Int64Value, Int64>(a, b, 9); } //@ twice=1
ENTRY(p_u64) { UInt64 a = s_u64("a"), b = s_u64("b"); pair<UInt64Value, UInt64>(a, b, 10); } //@ twice=1
ENTRY(o_bool) { other<BooleanValue, Boolean>(s_bool("a"), 1); } //@ twice=1
ENTRY(o_char) { other<CharValue, Char>((Char)s_i32("a"), 2); } //@ twice=1
ENTRY(o_i8) { other<SByteValue, SByte>(s_i8("a"), 3); } //@ twice=1
ENTRY(o_u8) { other<ByteValue, Byte>(s_u8("a"), 4); } //@ twice=1
ENTRY(o_i16) { other<Int16Value, Int16>(s_i16("a"), 5); } //@ twice=1
ENTRY(o_u16) { other<UInt16Value, UInt16>(s_u16("a"), 6); } //@ twice=1
ENTRY(o_i32) { other<Int32Value, Int32>(s_i32("a"), 7); } //@ twice=1
ENTRY(o_u32) { other<UInt32Value, UInt32>(s_u32("a"), 8); } //@ twice=1
ENTRY(o_i64) { other<Int64Value, Int64>(s_i64("a"), 9); } //@ twice=1
ENTRY(o_u64) { other<UInt64Value, UInt64>(s_u64("a"), 10); } //@ twice=1
