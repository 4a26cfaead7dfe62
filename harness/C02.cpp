// C02 GetValue/SetValue round trip through boxing
#include "vs.h"
//@bound every element type, ranks 1..3 with dimensions 1..2 (thorough 1..3), any stored value (full bit width), all indices over the full 32-bit range
static const DataType types[] = {ObjectType, BooleanType, CharType, SByteType, ByteType, Int16Type, UInt16Type, Int32Type, UInt32Type, Int64Type, UInt64Type, SingleType, DoubleType, DateTimeType, TimeSpanType, StringType};
static const int sizes[] = {8, 1, 4, 1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 8, 8, 8};
static Object *box(DataType t, uint64_t v) {
  switch (t) {
  case BooleanType: return new BooleanValue(v & 1); case CharType: return new CharValue((Char)v); case SByteType: return new SByteValue((SByte)v); case ByteType: return new ByteValue((Byte)v);
  case Int16Type: return new Int16Value((Int16)v); case UInt16Type: return new UInt16Value((UInt16)v); case Int32Type: return new Int32Value((Int32)v); case UInt32Type: return new UInt32Value((UInt32)v);
  case Int64Type: return new Int64Value((Int64)v); case UInt64Type: return new UInt64Value(v); case SingleType: return new SingleValue(bits2f((uint32_t)v)); case DoubleType: return new DoubleValue(bits2d(v));
  case DateTimeType: { DateTime d(v); return new DateTimeValue(d); } case TimeSpanType: { TimeSpan s((Int64)v); return new TimeSpanValue(s); }
  case StringType: return new String((Char *)L"abc"); default: return new Int32Value((Int32)v); }
}
static uint64_t unbox(DataType t, Object *o) {
  switch (t) {
  case BooleanType: return o->get_AsBoolean(); case CharType: return (uint32_t)o->get_AsChar(); case SByteType: return (uint8_t)o->get_AsSByte(); case ByteType: return o->get_AsByte();
  case Int16Type: return (uint16_t)o->get_AsInt16(); case UInt16Type: return o->get_AsUInt16(); case Int32Type: return (uint32_t)o->get_AsInt32(); case UInt32Type: return o->get_AsUInt32();
  case Int64Type: return (uint64_t)o->get_AsInt64(); case UInt64Type: return o->get_AsUInt64(); case SingleType: return f2bits(o->get_AsSingle()); case DoubleType: return d2bits(o->get_AsDouble());
  case DateTimeType: return o->get_AsDateTime().value; case TimeSpanType: return (uint64_t)o->get_AsTimeSpan().value; default: return (uint64_t)o; }
}
static uint64_t mask(int sz, uint64_t v) { return sz == 8 ? v : v & ((1ull << (8 * sz)) - 1); }
static int D2() { return THOROUGH() ? 3 : 2; }
static void roundtrip(bool byArray) {
  int t = p_range("type", 0, 15); DataType ty = types[t]; int sz = sizes[t]; int rank = p_range("rank", 1, 3);
  int d1 = rank == 1 ? 3 : 2, d2 = rank > 1 ? D2() : -1, d3 = rank > 2 ? 2 : -1; Array *a = new Array(ty, d1, d2, d3); int n = d1 * (rank > 1 ? d2 : 1) * (rank > 2 ? d3 : 1);
  int idx[3] = {s_i32("i"), rank > 1 ? s_i32("j") : -1, rank > 2 ? s_i32("k") : -1}; int dims[3] = {d1, d2, d3};
  uint64_t v = s_u64("v"); if (ty == BooleanType) v &= 1; if (ty == DateTimeType) vs_assume(v <= 3155378975999999999ull); v = (ty == ObjectType || ty == StringType) ? v : mask(sz, v);
  if (ty == SingleType) { float f = bits2f((uint32_t)v); vs_assume(f == f); } if (ty == DoubleType) { double f = bits2d(v); vs_assume(f == f); } // NaN payloads: C37-like identity not promised through boxing
  Object *o = box(ty, v); Array *ix = nullptr; if (byArray) { ix = new Array(Int32Type, rank); for (int q = 0; q < rank; q++) *(Int32 *)ix->Address(q) = idx[q]; }
  bool in = true; for (int q = 0; q < rank; q++) in = in & (idx[q] >= 0) & (idx[q] < dims[q]);
  int x = outcome([&] { if (byArray) a->SetValue(o, ix); else a->SetValue(o, idx[0], idx[1], idx[2]); });
  unsigned char *base = (unsigned char *)a->Address(0, rank > 1 ? 0 : -1, rank > 2 ? 0 : -1);
  if (!in) { vs_check(x == X_INDEX, "index out of range raises"); unsigned s = 0; for (int q = 0; q < n * sz; q++) s |= base[q]; vs_check(s == 0, "failed store changes nothing"); Object *g; int y = outcome([&] { g = byArray ? a->GetValue(ix) : a->GetValue(idx[0], idx[1], idx[2]); }); vs_check(y == X_INDEX, "failed read raises"); vs_cover("outside"); return; }
  vs_check(x == X_NONE, "store succeeds"); Object *g = nullptr; int y = outcome([&] { g = byArray ? a->GetValue(ix) : a->GetValue(idx[0], idx[1], idx[2]); }); vs_check(y == X_NONE && g != nullptr, "read succeeds");
  if (ty == ObjectType || ty == StringType) { vs_check(g == o, "same object comes back"); v = (uint64_t)o; }
  else { vs_check(g->GetRawDataType() == ty, "boxed type is the element type"); vs_check(unbox(ty, g) == v, "value comes back"); }
  int flat = idx[0]; if (rank > 1) flat = flat * d2 + idx[1]; if (rank > 2) flat = flat * d3 + idx[2];
  bool ok = true; for (int q = 0; q < n; q++) { uint64_t got = 0; memcpy(&got, base + q * sz, sz); ok = ok & (got == vs_ite(q == flat, v, 0)); } vs_check(ok, "only the addressed element changes"); vs_cover("inside");
}
ENTRY(direct) { roundtrip(false); } //@ shards=8 cost=2
ENTRY(by_index_array) { roundtrip(true); } //@ shards=8 cost=2
// an existing element of any bit pattern is read exactly and not disturbed
ENTRY(read) { //@ shards=4 twice=1
  int t = p_range("type", 1, 14); DataType ty = types[t]; int sz = sizes[t]; Array *a = new Array(ty, 3); unsigned char *base = (unsigned char *)a->Address(0); unsigned char copy[24];
  for (int i = 0; i < 3; i++) { uint64_t v = s_u64("v"); if (ty == BooleanType) v &= 1; if (ty == DateTimeType) vs_assume(v <= 3155378975999999999ull); memcpy(base + i * sz, &v, sz); } memcpy(copy, base, 3 * sz);
  int i = p_range("i", 0, 2); Object *g = a->GetValue(i); uint64_t w = 0; memcpy(&w, copy + i * sz, sz); vs_check(g->GetRawDataType() == ty, "type"); 
  if (ty == SingleType) { float f = bits2f((uint32_t)w); if (f != f) { float h = g->get_AsSingle(); vs_check(h != h, "NaN reads as NaN"); return; } } if (ty == DoubleType) { double f = bits2d(w); if (f != f) { double h = g->get_AsDouble(); vs_check(h != h, "NaN reads as NaN"); return; } }
  vs_check(unbox(ty, g) == w, "value"); vs_check(!memcmp(copy, base, 3 * sz), "unchanged"); vs_cover("read");
}
// a numeric element accepts another numeric box with C# conversion; unsupported boxes raise and change nothing
ENTRY(foreign) { //@ shards=4 twice=1
  int t = p_range("type", 1, 14), s = p_range("src", 0, 15); DataType ty = types[t]; int sz = sizes[t]; Array *a = new Array(ty, 2); unsigned char *base = (unsigned char *)a->Address(0); memset(base, 0x11, 2 * sz);
  uint64_t v = s_u64("v"); if (types[s] == DateTimeType) vs_assume(v <= 3155378975999999999ull); if (types[s] == SingleType || types[s] == DoubleType || ty == SingleType || ty == DoubleType) v &= 0x7f;
  Object *o = types[s] == ObjectType ? new Object() : box(types[s], v); int x = outcome([&] { a->SetValue(o, 1); });
  bool num = t >= 1 && t <= 12, snum = s >= 1 && s <= 12; if (num && !snum) { vs_check(x != X_NONE, "no conversion from a non-numeric object"); vs_cover("noconv"); } if (!num && s != t) vs_check(x != X_NONE, "dates and spans only accept themselves");
  bool ok = true; for (int i = 0; i < (x == X_NONE ? sz : 2 * sz); i++) ok = ok & (base[i] == 0x11); vs_check(ok, "other element and failed stores untouched"); vs_cover("foreign");
}
ENTRY(nulls) { //@ twice=1
  int r = p_range("k", 0, 4); Array *a = new Array(Int32Type, 2); Array *o = new Array(ObjectType, 2); Object *v = new Int32Value(1); *(Object **)o->Address(0) = v; *(Object **)o->Address(1) = v; int x = X_NONE;
  if (r == 0) x = outcome([&] { a->GetValue((Array *)nullptr); }); if (r == 1) x = outcome([&] { a->SetValue(v, (Array *)nullptr); }); if (r == 2) x = outcome([&] { a->SetValue(nullptr, 0); });
  if (r == 3) x = outcome([&] { a->GetValue(new Array(Int32Type, 1, 1)); }); if (r == 4) x = outcome([&] { a->GetValue(new Array(Int32Type, 4)); });
  vs_check(x != X_NONE, "raises"); vs_check(*(Int32 *)a->Address(0) == 0, "unchanged"); vs_cover("nulls");
}
// rank of the index array differs from the rank of the array
ENTRY(rank_mismatch) { //@ twice=1
  int rank = p_range("rank", 1, 3), m = p_range("m", 1, 3); vs_assume(rank != m); Array *a = new Array(Int32Type, 2, rank > 1 ? 2 : -1, rank > 2 ? 2 : -1); Array *ix = new Array(Int32Type, m); for (int i = 0; i < m; i++) *(Int32 *)ix->Address(i) = (Int32)vs_range("ix", 0, 1);
  Int32Value v(5); int x = outcome([&] { a->GetValue(ix); }), y = outcome([&] { a->SetValue(&v, ix); }); vs_check(x != X_NONE, "read with the wrong number of indices raises"); vs_check(y != X_NONE, "store with the wrong number of indices raises"); vs_cover("mismatch");
}
