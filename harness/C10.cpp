// C10 integers format to their canonical decimal text; a buffer that is too small is reported and never overrun
#include "vs.h"
//@bound every value of each of the eight integer types; every buffer size 0..24 characters (thorough; quick 0..22) and ToString; direct round trip through Parse for every 8 and 16 bit value, for 32 and 64 bit values as far as one text length per query is decided (quick: up to 5 digits, thorough: up to 7); the general round trip is the composition of this canonical-text check with C09
//@assume the platform's swprintf is modelled for %d/%u/%lld/%llu (models/libc.c)
template <class T> struct Txt { Char t[32]; int n; };
// canonical decimal text, computed from the least significant digit
static int canon(Char *out, uint64_t mag, bool neg) {
  Char rev[24]; int k = 0; do { rev[k++] = (Char)('0' + (Char)(unsigned)(mag % 10)); mag /= 10; } while (mag);
  int n = 0; if (neg) out[n++] = '-'; while (k) out[n++] = rev[--k]; out[n] = 0; return n;
}
template <class V, class T> static void one(T v) {
  bool sg = (T)-1 < 0; bool neg = sg && v < 0; uint64_t mag = neg ? 0 - (uint64_t)(int64_t)v : (uint64_t)v; Char want[32]; int n = canon(want, mag, neg);
  V o(v); int size = p_range("size", 0, THOROUGH() ? 24 : 22); Char *b = new Char[size + 1]; for (int i = 0; i <= size; i++) b[i] = 0x7777; int r = -7;
  int x = outcome([&] { r = o.FormatString(b, size); }); vs_check(b[size] == 0x7777, "nothing is written past the buffer");
  if (size > n) { vs_check(x == X_NONE && r == n, "length of the text"); bool same = true; for (int i = 0; i < n; i++) same = same & (b[i] == want[i]); vs_check(same, "canonical digits"); vs_check(b[n] == 0, "text is terminated"); vs_cover("fits"); }
  else { vs_check(x != X_NONE || r < 0, "too small a buffer is reported"); vs_cover("too small"); }
}
template <class V, class T> static void str(T v) {
  bool sg = (T)-1 < 0; bool neg = sg && v < 0; uint64_t mag = neg ? 0 - (uint64_t)(int64_t)v : (uint64_t)v; Char want[32]; int n = canon(want, mag, neg);
  V o(v); String *s = nullptr; int x = outcome([&] { s = o.ToString(); }); vs_check(x == X_NONE && isText(s, want, n), "ToString gives the canonical text"); vs_cover("text");
}
template <class V, class T> static void trip(T v) {
  V o(v); String *s = nullptr; T p = 0, q = 0; bool ok = false; int x = outcome([&] { s = o.ToString(); p = V::Parse(s); ok = V::TryParse(s, q); }); vs_check(x == X_NONE, "parsing the text succeeds"); vs_check(p == v && ok && q == v, "parsing the text gives the value"); vs_cover("trip");
}
ENTRY(f_i8) { one<SByteValue, SByte>(s_i8("v")); } //@ twice=1
ENTRY(f_u8) { one<ByteValue, Byte>(s_u8("v")); } //@ twice=1
ENTRY(f_i16) { one<Int16Value, Int16>(s_i16("v")); }
ENTRY(f_u16) { one<UInt16Value, UInt16>(s_u16("v")); } //@ twice=1
ENTRY(f_i32) { one<Int32Value, Int32>(s_i32("v")); }
ENTRY(f_u32) { one<UInt32Value, UInt32>(s_u32("v")); }
ENTRY(f_i64) { one<Int64Value, Int64>(s_i64("v")); } //@ shards=4 tmo=100
ENTRY(f_u64) { one<UInt64Value, UInt64>(s_u64("v")); } //@ shards=4 tmo=100
ENTRY(s_i8) { str<SByteValue, SByte>(s_i8("v")); } //@ twice=1
ENTRY(s_u8) { str<ByteValue, Byte>(s_u8("v")); } //@ twice=1
ENTRY(s_i16) { str<Int16Value, Int16>(s_i16("v")); } //@ twice=1
ENTRY(s_u16) { str<UInt16Value, UInt16>(s_u16("v")); } //@ twice=1
ENTRY(s_i32) { str<Int32Value, Int32>(s_i32("v")); } //@ twice=1
ENTRY(s_u32) { str<UInt32Value, UInt32>(s_u32("v")); } //@ twice=1
ENTRY(s_i64) { str<Int64Value, Int64>(s_i64("v")); }
ENTRY(s_u64) { str<UInt64Value, UInt64>(s_u64("v")); } //@ twice=1
ENTRY(t_i8) { trip<SByteValue, SByte>(s_i8("v")); } //@ twice=1
ENTRY(t_u8) { trip<ByteValue, Byte>(s_u8("v")); } //@ twice=1
ENTRY(t_i16) { trip<Int16Value, Int16>(s_i16("v")); } //@ twice=1
ENTRY(t_u16) { trip<UInt16Value, UInt16>(s_u16("v")); } //@ twice=1
ENTRY(t_i32) { int32_t v = s_i32("v"); int32_t m = THOROUGH() ? 10000000 : 100000; vs_assume(v > -m && v < m); trip<Int32Value, Int32>(v); } //@ tqt=300000 ttmo=1500 twice=1
ENTRY(t_u32) { uint32_t v = s_u32("v"); vs_assume(v < (THOROUGH() ? 10000000u : 100000u)); trip<UInt32Value, UInt32>(v); } //@ tqt=300000 ttmo=1500 twice=1
