// C09 integer Parse / TryParse accept exactly the in-range decimal numbers
#include "vs.h"
//@bound all eight integer types; every text of 0..4 characters (thorough 0..5), each character any code 0..0x10ffff; and every text of optional leading/trailing blank, sign and 1..21 arbitrary digits (all numbers around every type's limits, incl. leading zeros); texts of 260..4100 characters (thorough up to 8200): leading zeros, leading or trailing blanks around three arbitrary digits, or sevens
//@assume character classes of the "C" locale (modelled)
template <class T> struct Lim { static const bool sg = (T)-1 < 0; static unsigned __int128 maxMag(bool neg) { int b = 8 * sizeof(T); if (!sg) return neg ? 0 : (((unsigned __int128)1 << b) - 1); return ((unsigned __int128)1 << (b - 1)) - (neg ? 0 : 1); } };
static bool ws(Char c) { return ((c >= 9) & (c <= 13)) | (c == 32); }
static bool dg(Char c) { return (c >= '0') & (c <= '9'); }
// reference grammar: ws* [+-]? digit+ ws*
static bool refParse(const Char *t, int n, bool &neg, unsigned __int128 &mag) {
  int i = 0; neg = false; mag = 0; while (i < n && ws(t[i])) i++;
  if (i < n && (t[i] == '-' || t[i] == '+')) { neg = t[i] == '-'; i++; }
  int d = 0; while (i < n && dg(t[i])) { mag = mag * 10 + (unsigned)(t[i] - '0'); i++; d++; }
  while (i < n && ws(t[i])) i++;
  return d > 0 && i == n;
}
template <class V, class T> static void one(const Char *t, int n) {
  String *s = mkString(t, n); T p = 77, q = 77; bool ok = false;
  int x = outcome([&] { p = V::Parse(s); }); int y = outcome([&] { ok = V::TryParse(s, q); });
  bool neg; unsigned __int128 mag; bool wf = refParse(t, n, neg, mag); vs_check(y == X_NONE, "TryParse does not raise");
  if (!wf) { vs_check(x == X_FORMAT, "malformed text is a format error"); vs_check(!ok && q == 0, "TryParse reports false and zero (malformed)"); vs_cover("malformed"); return; }
  if (mag > Lim<T>::maxMag(neg)) { vs_check(x == X_OVERFLOW, "number outside the type's range is an overflow error"); vs_check(!ok && q == 0, "TryParse reports false and zero (overflow)"); vs_cover("overflow"); return; }
  T v = neg ? (T)(0 - (uint64_t)mag) : (T)(uint64_t)mag; vs_check(x == X_NONE && p == v, "Parse gives the number"); vs_check(ok && q == v, "TryParse gives the number"); vs_cover("number");
}
template <class V, class T> static void any() { int n = p_range("n", 0, THOROUGH() ? 5 : 4); Char t[8]; for (int i = 0; i < n; i++) t[i] = s_char("t"); t[n] = 0; one<V, T>(t, n); }
template <class V, class T> static void digits(int lo, int hi) {
  int n = p_range("n", lo, hi), sg = p_range("sign", 0, 2); int k = 0; Char t[32]; if (sg && s_bool("blank")) t[k++] = ' '; if (sg) t[k++] = sg == 1 ? '-' : '+';
  for (int i = 0; i < n; i++) t[k++] = (Char)('0' + vs_range("d", 0, 9)); if (sg && s_bool("tail")) t[k++] = '\t'; t[k] = 0; one<V, T>(t, k);
}
template <class V, class T> static void nul() { T q = 77; bool ok = true; int x = outcome([&] { V::Parse(nullptr); }), y = outcome([&] { ok = V::TryParse(nullptr, q); }); vs_check(x == X_NULL || x == X_ARG, "null text is an argument error"); vs_check(y == X_NONE && !ok && q == 0, "TryParse(null) is false and zero"); }
ENTRY(a_i8) { any<SByteValue, SByte>(); } //@ cost=2 shards=2 tshards=6
ENTRY(a_u8) { any<ByteValue, Byte>(); } //@ cost=2 shards=2 tshards=6
ENTRY(a_i16) { any<Int16Value, Int16>(); } //@ cost=2 shards=2 tshards=6 twice=1
ENTRY(a_u16) { any<UInt16Value, UInt16>(); } //@ cost=2 shards=2 tshards=6
ENTRY(a_i32) { any<Int32Value, Int32>(); } //@ cost=2 shards=2 tshards=6 twice=1
ENTRY(a_u32) { any<UInt32Value, UInt32>(); } //@ cost=2 shards=2 tshards=6
ENTRY(a_i64) { any<Int64Value, Int64>(); } //@ cost=2 shards=2 tshards=6 twice=1
ENTRY(a_u64) { any<UInt64Value, UInt64>(); } //@ cost=2 shards=2 tshards=6
ENTRY(d_i8) { digits<SByteValue, SByte>(1, THOROUGH() ? 8 : 5); } //@ twice=1
ENTRY(d_u8) { digits<ByteValue, Byte>(1, THOROUGH() ? 8 : 5); } //@ twice=1
ENTRY(d_i16) { digits<Int16Value, Int16>(1, THOROUGH() ? 8 : 7); } //@ twice=1
ENTRY(d_u16) { digits<UInt16Value, UInt16>(1, THOROUGH() ? 8 : 7); }
ENTRY(d_i32) { digits<Int32Value, Int32>(1, THOROUGH() ? 13 : 11); }
ENTRY(d_u32) { digits<UInt32Value, UInt32>(1, THOROUGH() ? 13 : 11); }
ENTRY(d_i64) { digits<Int64Value, Int64>(1, THOROUGH() ? 24 : 21); } //@ cost=5 shards=7 tmo=150 qt=60000 ttmo=900 tqt=300000
ENTRY(d_u64) { digits<UInt64Value, UInt64>(1, THOROUGH() ? 24 : 21); } //@ cost=5 shards=7 tmo=150 qt=60000 ttmo=900 tqt=300000
ENTRY(nulls) { nul<SByteValue, SByte>(); nul<ByteValue, Byte>(); nul<Int16Value, Int16>(); nul<UInt16Value, UInt16>(); nul<Int32Value, Int32>(); nul<UInt32Value, UInt32>(); nul<Int64Value, Int64>(); nul<UInt64Value, UInt64>(); vs_cover("null"); } //@ twice=1
// ---- huge: lengths far past every buffer and chunk size in the library
ENTRY(huge) { //@ shards=4 again=0 cost=2 steps=40000000
  int n = hugeLen("n"), kind = p_range("kind", 0, 3); static Char c[8300]; for (int i = 0; i < n; i++) c[i] = kind == 0 ? '0' : kind == 1 ? ' ' : kind == 2 ? ' ' : '7'; int at = kind == 2 ? 2 : n - 4; Char d[3]; for (int i = 0; i < 3; i++) c[at + i] = d[i] = (Char)vs_range("d", '0', '9'); if (kind != 3) c[at + 3] = kind == 0 ? d[2] : ' '; int v = kind == 0 ? (d[0] - '0') * 1000 + (d[1] - '0') * 100 + (d[2] - '0') * 10 + d[2] - '0' : (d[0] - '0') * 100 + (d[1] - '0') * 10 + d[2] - '0'; c[n] = 0; String *s = mkString(c, n);
  Int32 i4 = 5; Int64 i8 = 5; UInt64 u8 = 5; UInt16 u2 = 5; if (kind == 3) { vs_check(outcome([&] { Int32Value::Parse(s); }) == X_OVERFLOW && outcome([&] { Int64Value::Parse(s); }) == X_OVERFLOW && outcome([&] { UInt64Value::Parse(s); }) == X_OVERFLOW, "too large raises overflow"); vs_check(!Int32Value::TryParse(s, i4) && !Int64Value::TryParse(s, i8) && !UInt64Value::TryParse(s, u8) && !UInt16Value::TryParse(s, u2) && i4 == 0 && i8 == 0 && u8 == 0 && u2 == 0, "TryParse reports it"); vs_cover("huge overflow"); return; }
  vs_check(Int32Value::Parse(s) == v && Int64Value::Parse(s) == v && UInt64Value::Parse(s) == (UInt64)v && UInt16Value::Parse(s) == v, "the number"); vs_check(Int32Value::TryParse(s, i4) && Int64Value::TryParse(s, i8) && UInt64Value::TryParse(s, u8) && UInt16Value::TryParse(s, u2) && i4 == v && i8 == v && u8 == (UInt64)v && u2 == v, "TryParse agrees"); vs_cover("huge");
}
