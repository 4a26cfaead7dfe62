// C07 BitConverter round trips
#include "vs.h"
//@bound every bit pattern of every primitive type (characters up to 0xffff, the 16-bit .NET range), byte arrays of 0..10 bytes, and of 17, 33, 130 (thorough 15 lengths up to 257) around both ends, every 32-bit start index
//@assume byte order of the host (little endian)
template <class T> static void bytes(Array *a, T v) { vs_check(a->GetElementType() == ByteType && a->get_Length() == (int)sizeof(T) && a->get_Rank() == 1, "byte array of the type's size"); uint8_t e[8]; memcpy(e, &v, sizeof v); bool ok = true; for (unsigned i = 0; i < sizeof(T); i++) ok = ok & (*(Byte *)a->Address(i) == e[i]); vs_check(ok, "native byte order"); }
// reads the type at every start index of an array of arbitrary bytes
template <class T, class F> static void rd(F f) {
  int n = p_range("n", 0, THOROUGH() ? 12 : 10); uint8_t c[16]; Array *a = new Array(ByteType, n); for (int i = 0; i < n; i++) *(Byte *)a->Address(i) = c[i] = s_u8("b"); int s = s_i32("start"); uint64_t r = 0; int x = outcome([&] { r = f(a, s); });
  bool ok = s >= 0 && (int64_t)s + (int)sizeof(T) <= n; if (!ok) { vs_check(argerr(x), "too few bytes raise"); vs_cover("short"); return; } s = (int)vs_pick(s); T v; memcpy(&v, c + s, sizeof v); uint64_t e = 0; memcpy(&e, &v, sizeof v); vs_check(x == X_NONE && r == e, "bit pattern at the start index"); vs_cover("read");
}
#define RT(T, ty, get, toF) T v; { uint64_t b = vs_sym("v", 8 * sizeof(T)); memcpy(&v, &b, sizeof v); } Array *a = BitConverter::GetBytes(v); bytes<T>(a, v); T r = BitConverter::toF(a, 0); vs_check(memcmp(&r, &v, sizeof v) == 0, "identical bits"); rd<T>([](Array *q, int s) { T r = BitConverter::toF(q, s); uint64_t e = 0; memcpy(&e, &r, sizeof r); return e; });
ENTRY(i16) { RT(Int16, 0, 0, ToInt16) } //@ twice=1
ENTRY(u16) { RT(UInt16, 0, 0, ToUInt16) } //@ twice=1
ENTRY(i32) { RT(Int32, 0, 0, ToInt32) } //@ twice=1
ENTRY(u32) { RT(UInt32, 0, 0, ToUInt32) } //@ twice=1
ENTRY(i64) { RT(Int64, 0, 0, ToInt64) } //@ twice=1
ENTRY(u64) { RT(UInt64, 0, 0, ToUInt64) } //@ twice=1
ENTRY(f64) { RT(Double, 0, 0, ToDouble) } //@ twice=1
ENTRY(f32) { RT(Single, 0, 0, ToSingle) } //@ twice=1
ENTRY(chars) { Char v = (Char)vs_range("v", 0, 0xffff); Array *a = BitConverter::GetBytes(v); bytes<UInt16>(a, (UInt16)v); vs_check(BitConverter::ToChar(a, 0) == v, "identical character"); rd<UInt16>([](Array *q, int s) { return (uint64_t)(int64_t)BitConverter::ToChar(q, s); }); vs_cover("char"); } //@ twice=1
ENTRY(booleans) { bool v = s_bool("v"); Array *a = BitConverter::GetBytes(v); bytes<uint8_t>(a, v); vs_check(BitConverter::ToBoolean(a, 0) == v, "identical truth value"); int n = p_range("n", 0, 4); uint8_t c[4]; Array *q = new Array(ByteType, n); for (int i = 0; i < n; i++) *(Byte *)q->Address(i) = c[i] = s_u8("b"); int s = s_i32("start"); bool r = false; int x = outcome([&] { r = BitConverter::ToBoolean(q, s); }); if (s < 0 || s >= n) vs_check(argerr(x), "outside raises"); else { s = (int)vs_pick(s); vs_check(x == X_NONE && r == (c[s] != 0), "any non-zero byte is true"); vs_cover("bool"); } } //@ twice=1
ENTRY(bits) { uint64_t b = s_u64("bits"); vs_check((uint64_t)BitConverter::DoubleToInt64Bits(bits2d(b)) == b, "double to bits"); vs_check(d2bits(BitConverter::Int64BitsToDouble((Int64)b)) == b, "bits to double"); vs_cover("bits"); } //@ twice=1
ENTRY(nulls) { int k = p_range("k", 0, 9), s = s_i32("s"); Array *z = nullptr; int x = outcome([&] { switch (k) { case 0: BitConverter::ToBoolean(z, s); break; case 1: BitConverter::ToChar(z, s); break; case 2: BitConverter::ToDouble(z, s); break; case 3: BitConverter::ToInt16(z, s); break; case 4: BitConverter::ToInt32(z, s); break; case 5: BitConverter::ToInt64(z, s); break; case 6: BitConverter::ToSingle(z, s); break; case 7: BitConverter::ToUInt16(z, s); break; case 8: BitConverter::ToUInt32(z, s); break; case 9: BitConverter::ToUInt64(z, s); break; } }); vs_check(x == X_NULL, "null array raises"); vs_check(BitConverter::IsLittleEndian, "byte order flag"); vs_cover("null"); } //@ twice=1
template <class T, class F> static void lrd(F f) { int n = longLen("n"); static uint8_t c[260]; Array *a = new Array(ByteType, n); int s = edge("start", n); for (int i = 0; i < n; i++) *(Byte *)a->Address(i) = c[i] = s >= 0 && i >= s && i - s < 8 ? s_u8("b") : i * 5; uint64_t r = 0; int x = outcome([&] { r = f(a, s); }); bool ok = s >= 0 && (int64_t)s + (int)sizeof(T) <= n; if (!ok) { vs_check(argerr(x), "too few bytes raise"); return; } T v; memcpy(&v, c + s, sizeof v); uint64_t e = 0; memcpy(&e, &v, sizeof v); vs_check(x == X_NONE && r == e, "bit pattern at the start index"); vs_cover("long read"); }
ENTRY(longer) { int k = p_range("k", 0, 9); //@ twice=1
#define L(T, toF) { lrd<T>([](Array *q, int s) { T r = BitConverter::toF(q, s); uint64_t e = 0; memcpy(&e, &r, sizeof r); return e; }); break; }
  switch (k) { case 0: L(Int16, ToInt16) case 1: L(UInt16, ToUInt16) case 2: L(Int32, ToInt32) case 3: L(UInt32, ToUInt32) case 4: L(Int64, ToInt64) case 5: L(UInt64, ToUInt64) case 6: L(Double, ToDouble) case 7: L(Single, ToSingle)
  case 8: lrd<UInt16>([](Array *q, int s) { return (uint64_t)(int64_t)BitConverter::ToChar(q, s); }); break; case 9: lrd<uint8_t>([](Array *q, int s) { uint8_t b = *(uint8_t *)q->Address(s < 0 || s >= q->get_Length() ? 0 : s); return BitConverter::ToBoolean(q, s) == (b != 0) ? (uint64_t)b : 999; }); break; } }
