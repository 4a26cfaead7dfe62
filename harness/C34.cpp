// C34 floating-point classification, equality and order
#include "vs.h"
//@bound every double and float bit pattern; every pair of them; the other operand as a value, a boxed value, null or an object of any other kind
static int sgn(int x) { return (x > 0) - (x < 0); }
template <class V, class T> static void classify(T v, bool sg, uint64_t e, uint64_t m, uint64_t emax) {
  bool nan = (e == emax) & (m != 0), inf = (e == emax) & (m == 0), fin = e != emax; int x = outcome([&] {
    vs_check(V::IsNaN(v) == nan, "NaN"); vs_check(V::IsInfinity(v) == inf, "infinity"); vs_check(V::IsFinite(v) == fin, "finite"); vs_check(V::IsNegative(v) == (sg | nan), "negative (and NaN)");
    vs_check(V::IsNormal(v) == (fin & (e != 0)), "normal"); vs_check(V::IsSubnormal(v) == ((e == 0) & (m != 0)), "subnormal"); vs_check(V::IsPositiveInfinity(v) == (inf & !sg), "positive infinity"); vs_check(V::IsNegativeInfinity(v) == (inf & sg), "negative infinity"); });
  vs_check(x == X_NONE, "no exception"); if (nan) vs_cover("nan"); else if (inf) vs_cover("infinity"); else vs_cover("number");
}
ENTRY(classD) { uint64_t b = s_u64("bits"); classify<DoubleValue, Double>(bits2d(b), b >> 63, b >> 52 & 0x7ff, b & 0xfffffffffffffull, 0x7ff); } //@ twice=1
ENTRY(classF) { uint32_t b = s_u32("bits"); classify<SingleValue, Single>(bits2f(b), b >> 31, b >> 23 & 0xff, b & 0x7fffff, 0xff); } //@ twice=1
ENTRY(bitsF) { uint32_t b = s_u32("bits"); vs_check(SingleValue::ToUInt32(SingleValue::ToSingle(b)) == b, "bits survive"); vs_check(SingleValue::ToUInt32(bits2f(b)) == b, "bits of a float"); vs_cover("bits"); } //@ twice=1
template <class V, class T> static void pair(T a, T b) {
  V x(a), y(b); bool na = a != a, nb = b != b; bool eq = (a == b) | (na & nb); int want = na ? (nb ? 0 : -1) : nb ? 1 : a < b ? -1 : a > b ? 1 : 0;
  int o = outcome([&] { vs_check(x.Equals(b) == eq, "Equals(value)"); vs_check(x.Equals((Object *)&y) == eq, "Equals(boxed)"); vs_check(Object::Equals(&x, &y) == eq, "static Equals"); vs_check(x.Equals((Object *)&x), "reflexive");
    vs_check(sgn(x.CompareTo(b)) == want, "CompareTo(value)"); vs_check(sgn(x.CompareTo((Object *)&y)) == want, "CompareTo(boxed)"); vs_check(sgn(y.CompareTo(a)) == -want, "antisymmetric"); });
  vs_check(o == X_NONE, "no exception"); if (na | nb) vs_cover("nan"); else vs_cover("numbers");
}
ENTRY(pairD) { double a = s_dbl("a"), b = s_dbl("b"); pair<DoubleValue, Double>(a, b); } //@ twice=1
ENTRY(pairF) { float a = s_flt("a"), b = s_flt("b"); pair<SingleValue, Single>(a, b); } //@ twice=1
static Object *foreign(int k) {
  switch (k) { case 0: return new Object(); case 1: return new BooleanValue(s_bool("fb")); case 2: return new CharValue((Char)s_i32("fc")); case 3: return new SByteValue(s_i8("f8")); case 4: return new ByteValue(s_u8("fu8")); case 5: return new Int16Value(s_i16("f16")); case 6: return new UInt16Value(s_u16("fu16")); case 7: return new Int32Value(s_i32("f32")); case 8: return new UInt32Value(s_u32("fu32")); case 9: return new Int64Value(s_i64("f64")); case 10: return new UInt64Value(s_u64("fu64"));
  case 11: return new SingleValue(s_flt("ff")); case 12: return new DoubleValue(s_dbl("fd")); case 13: { DateTime d; d.value = s_i64("fdt"); return new DateTimeValue(d); } case 14: { TimeSpan t; t.value = s_i64("fts"); return new TimeSpanValue(t); }
  default: { Char c[1] = {s_char("fs")}; return mkString(c, 1); } } }
template <class V, class T> static void other(T a, int self) {
  V x(a); bool e = true; int r = 0; int o = outcome([&] { e = x.Equals((Object *)nullptr); }); vs_check(o == X_NONE && !e, "not equal to null"); o = outcome([&] { r = x.CompareTo((Object *)nullptr); }); vs_check(o == X_NONE && r > 0, "sorts after null");
  int k = p_range("kind", 0, 15); if (k == self) return; Object *f = foreign(k); e = true; o = outcome([&] { e = x.Equals(f); }); vs_check(o == X_NONE && !e, "not equal to another kind of object"); o = outcome([&] { r = x.CompareTo(f); }); vs_check(o == X_ARG, "ordering against another kind raises an argument error"); vs_cover("other"); }
ENTRY(otherD) { other<DoubleValue, Double>(s_dbl("a"), 12); } //@ twice=1
ENTRY(otherF) { other<SingleValue, Single>(s_flt("a"), 11); } //@ twice=1
ENTRY(constants) { vs_check(d2bits(DoubleValue::MaxValue) == 0x7fefffffffffffffull && d2bits(DoubleValue::MinValue) == 0xffefffffffffffffull && d2bits(DoubleValue::Epsilon) == 1, "extreme doubles"); vs_check(DoubleValue::NaN != DoubleValue::NaN && d2bits(DoubleValue::PositiveInfinity) == 0x7ff0000000000000ull && d2bits(DoubleValue::NegativeInfinity) == 0xfff0000000000000ull, "special doubles"); //@ twice=1
  vs_check(f2bits(SingleValue::MaxValue) == 0x7f7fffffu && f2bits(SingleValue::MinValue) == 0xff7fffffu && f2bits(SingleValue::Epsilon) == 1, "extreme floats"); vs_check(SingleValue::NaN != SingleValue::NaN && f2bits(SingleValue::PositiveInfinity) == 0x7f800000u && f2bits(SingleValue::NegativeInfinity) == 0xff800000u, "special floats"); vs_cover("constants"); }
