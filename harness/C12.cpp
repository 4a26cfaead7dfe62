// C12 boxed getters: own type exact, other numeric types by C# conversion, unsupported types raise invalid-cast
#include "vs.h"
//@bound every value of each of the 12 primitive types; every getter; conversions of real numbers to integers for values whose truncation fits the target type (others are unspecified in C#)
//@assume real-to-integer conversions are only demanded when the truncated value fits the target
enum G { gBool, gChar, gByte, gSByte, gI16, gU16, gI32, gU32, gI64, gU64, gSingle, gDouble, gTimeSpan, gDateTime, gN };
static uint64_t get(Object *o, int g) {
  switch (g) {
  case gBool: return o->get_AsBoolean(); case gChar: return (uint64_t)(int64_t)(int32_t)o->get_AsChar(); case gByte: return o->get_AsByte(); case gSByte: return (uint64_t)(int64_t)o->get_AsSByte();
  case gI16: return (uint64_t)(int64_t)o->get_AsInt16(); case gU16: return o->get_AsUInt16(); case gI32: return (uint64_t)(int64_t)o->get_AsInt32(); case gU32: return o->get_AsUInt32(); case gI64: return (uint64_t)o->get_AsInt64(); case gU64: return o->get_AsUInt64();
  case gSingle: return f2bits(o->get_AsSingle()); case gDouble: return d2bits(o->get_AsDouble()); case gTimeSpan: return (uint64_t)o->get_AsTimeSpan().value; default: return (uint64_t)o->get_AsDateTime().value; }
}
// expected conversion of an integer value (given as sign-extended bits, sg: signed source)
static uint64_t conv(uint64_t v, bool sg, int g) {
  switch (g) {
  case gBool: return v != 0; case gChar: return (uint64_t)(int64_t)(int32_t)v; case gByte: return (uint8_t)v; case gSByte: return (uint64_t)(int64_t)(int8_t)v; case gI16: return (uint64_t)(int64_t)(int16_t)v; case gU16: return (uint16_t)v;
  case gI32: return (uint64_t)(int64_t)(int32_t)v; case gU32: return (uint32_t)v; case gI64: case gU64: return v; case gSingle: return f2bits(sg ? (float)(int64_t)v : (float)v); default: return d2bits(sg ? (double)(int64_t)v : (double)v); }
}
// getters each boxed type supports (bit set), documented by the overrides in its header
#define B(x) (1u << (x))
static void ints(Object *o, uint64_t v, bool sg, unsigned supported) {
  int g = p_range("getter", 0, gN - 1); uint64_t r = 0; int x = outcome([&] { r = get(o, g); });
  if (supported & B(g)) { vs_check(x == X_NONE, "supported read succeeds"); vs_check(r == conv(v, sg, g), "converted value"); vs_cover("read"); }
  else { vs_check(x == X_CAST, "unsupported read raises invalid-cast"); vs_cover("unsupported"); }
  uint64_t r2 = 0; outcome([&] { r2 = get(o, gI64); }); vs_check(r2 == v, "reading leaves the value unchanged");
}
static const unsigned ALLI = B(gBool) | B(gChar) | B(gByte) | B(gSByte) | B(gI16) | B(gU16) | B(gI32) | B(gU32) | B(gI64) | B(gU64) | B(gSingle) | B(gDouble);
ENTRY(i8) { SByte v = s_i8("v"); SByteValue o(v); ints(&o, (uint64_t)(int64_t)v, true, ALLI); } //@ twice=1
ENTRY(u8) { Byte v = s_u8("v"); ByteValue o(v); ints(&o, v, true, ALLI); } //@ twice=1
ENTRY(i16) { Int16 v = s_i16("v"); Int16Value o(v); ints(&o, (uint64_t)(int64_t)v, true, ALLI); } //@ twice=1
ENTRY(u16) { UInt16 v = s_u16("v"); UInt16Value o(v); ints(&o, v, true, ALLI); } //@ twice=1
ENTRY(i32) { Int32 v = s_i32("v"); Int32Value o(v); ints(&o, (uint64_t)(int64_t)v, true, ALLI); } //@ twice=1
ENTRY(u32) { UInt32 v = s_u32("v"); UInt32Value o(v); ints(&o, v, true, ALLI); } //@ twice=1
ENTRY(i64) { Int64 v = s_i64("v"); Int64Value o(v); ints(&o, (uint64_t)v, true, ALLI); } //@ twice=1
ENTRY(u64) { UInt64 v = s_u64("v"); UInt64Value o(v); ints(&o, v, false, ALLI); } //@ twice=1
ENTRY(chars) { Char v = (Char)s_i32("v"); CharValue o(v); ints(&o, (uint64_t)(int64_t)(int32_t)v, true, ALLI & ~B(gBool)); } //@ twice=1
ENTRY(boolean) { Boolean v = s_bool("v"); BooleanValue o(v); ints(&o, v, true, B(gBool) | B(gByte) | B(gSByte) | B(gI16) | B(gU16) | B(gI32) | B(gU32) | B(gI64) | B(gU64)); } //@ twice=1
// real numbers: truncated toward zero when the result fits
template <class V> static void reals(V &o, double v, uint64_t own, bool isFloat) {
  static const double lo[] = {-32769.0, -1.0, -2147483649.0, -1.0, -9223372036854777856.0, -1.0}, hi[] = {32768.0, 65536.0, 2147483648.0, 4294967296.0, 9223372036854775808.0, 18446744073709551616.0};
  int g = p_range("getter", 0, gN - 1);
  if (g >= gI16 && g <= gU64) {
    int k = g - gI16; vs_assume((g == gI64 ? v >= -9223372036854775808.0 : v > lo[k]) && v < hi[k]);
    uint64_t r = 0; int x = outcome([&] { r = get(&o, g); }); vs_check(x == X_NONE, "integer read succeeds");
    uint64_t w = g == gU64 ? (uint64_t)v : g == gI64 ? (uint64_t)(int64_t)v : g == gU32 ? (uint64_t)(uint32_t)v : g == gI32 ? (uint64_t)(int64_t)(int32_t)v : g == gU16 ? (uint64_t)(uint16_t)v : (uint64_t)(int64_t)(int16_t)v;
    vs_check(r == w, "truncated toward zero"); vs_cover("truncate");
  } else if (g == gDouble) { uint64_t r = 0; int x = outcome([&] { r = get(&o, g); }); vs_check(x == X_NONE && (r == d2bits(v) || v != v), "as double"); if (v != v) vs_check(bits2d(r) != bits2d(r), "NaN stays NaN"); }
  else if (g == gSingle) { uint64_t r = 0; int x = outcome([&] { r = get(&o, g); }); vs_check(x == X_NONE && (r == f2bits((float)v) || v != v), "as single"); if (v != v) vs_check(bits2f(r) != bits2f(r), "NaN stays NaN"); }
  else { uint64_t r; vs_check(outcome([&] { r = get(&o, g); }) == X_CAST, "unsupported read raises invalid-cast"); vs_cover("unsupported real"); }
  uint64_t again = isFloat ? f2bits(o.get_AsSingle()) : d2bits(o.get_AsDouble()); vs_check(again == own, "reading leaves the value unchanged");
}
ENTRY(dbl) { double v = s_dbl("v"); DoubleValue o(v); reals(o, v, d2bits(v), false); } //@ twice=1
ENTRY(flt) { float v = s_flt("v"); SingleValue o(v); reals(o, v, f2bits(v), true); } //@ twice=1
ENTRY(spans) { //@ twice=1
  int k = p_range("k", 0, 1), g = p_range("getter", 0, gN - 1); int64_t t = s_i64("ticks"); DateTime d; d.value = t; TimeSpan s; s.value = t; DateTimeValue dv(d); TimeSpanValue sv(s); Object *o = k ? (Object *)&dv : (Object *)&sv;
  uint64_t r = 0; int x = outcome([&] { r = get(o, g); }); if (g == (k ? gDateTime : gTimeSpan)) { vs_check(x == X_NONE && r == (uint64_t)t, "own ticks"); vs_cover("ticks"); } else vs_check(x == X_CAST, "unsupported read raises invalid-cast");
}
ENTRY(plain) { // objects without a numeric value support no read //@ twice=1
  int k = p_range("k", 0, 2), g = p_range("getter", 0, gN - 1); Char c[1] = {s_char("c")}; Object *o = k == 0 ? new Object() : k == 1 ? (Object *)mkString(c, 1) : (Object *)new Array(Int32Type, 2); uint64_t r; vs_check(outcome([&] { r = get(o, g); }) == X_CAST, "raises invalid-cast"); vs_cover("plain");
}
