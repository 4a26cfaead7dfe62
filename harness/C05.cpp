// C05 shape queries, initial contents, ownership
#include "vs.h"
#include <stdlib.h>
//@bound dimensions 0..2^31-1 wrapped storage for the queries, dimension number over the full 32-bit range; owned arrays of up to 1025 elements, and up to 3x3x3 of every element type; lengths 260, 600, 1030 and 4100 (thorough 17 lengths up to 8200) with one or two arbitrary elements and positions at the ends and the middle
static const DataType types[] = {ObjectType, BooleanType, CharType, SByteType, ByteType, Int16Type, UInt16Type, Int32Type, UInt32Type, Int64Type, UInt64Type, SingleType, DoubleType, DecimalType, DateTimeType, TimeSpanType, StringType};
static const int sizes[] = {8, 1, 4, 1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 8, 8, 8, 8};
static char backing[128];
ENTRY(queries) { //@ shards=3 twice=1
  int rank = p_range("rank", 1, 3); int t = p_range("type", 0, 16); int d[3] = {-1, -1, -1};
  d[0] = s_i32("d1"); vs_assume(d[0] >= 0); if (rank > 1) { d[1] = s_i32("d2"); vs_assume(d[1] >= 0 && d[1] <= 1000); } if (rank > 2) { d[2] = s_i32("d3"); vs_assume(d[2] >= 0 && d[2] <= 1000); }
  vs_assume(d[0] <= (rank == 1 ? 0x7fffffff / 8 : rank == 2 ? 100000 : 100));
  Array *a = new Array(backing, types[t], d[0], d[1], d[2]); int r = s_i32("r");
  vs_check(a->get_Rank() == rank, "rank"); vs_check(a->GetElementType() == types[t], "element type");
  vs_check((int64_t)a->get_Length() == (int64_t)d[0] * (rank > 1 ? d[1] : 1) * (rank > 2 ? d[2] : 1), "total length");
  int n = 0, lb = 7, ub = 7; int x1 = outcome([&] { n = a->GetLength(r); }), x2 = outcome([&] { lb = a->GetLowerBound(r); }), x3 = outcome([&] { ub = a->GetUpperBound(r); });
  if (r >= 0 && r < rank) { vs_check(x1 == X_NONE && x2 == X_NONE && x3 == X_NONE, "existing dimension answers"); int e = d[0]; if (r == 1) e = d[1]; if (r == 2) e = d[2];
    vs_check(n == e, "dimension length"); vs_check(lb == 0, "lower bound"); vs_check(ub == e - 1, "upper bound"); vs_cover("dim"); }
  else { vs_check(x1 == X_INDEX, "GetLength of a missing dimension"); vs_check(x2 == X_INDEX, "GetLowerBound of a missing dimension"); vs_check(x3 == X_INDEX, "GetUpperBound of a missing dimension"); vs_cover("nodim"); }
}
ENTRY(zeroed) { //@ shards=3
  int rank = p_range("rank", 1, 3); int t = p_range("type", 0, 16); int d1 = p_range("d1", 0, 3), d2 = rank > 1 ? p_range("d2", 0, 2) : -1, d3 = rank > 2 ? p_range("d3", 1, 2) : -1;
  Array *a = new Array(types[t], d1, d2, d3); int n = d1 * (rank > 1 ? d2 : 1) * (rank > 2 ? d3 : 1); vs_check(a->get_Length() == n, "length");
  if (n) { unsigned char *p = (unsigned char *)a->Address(0, rank > 1 ? 0 : -1, rank > 2 ? 0 : -1); unsigned o = 0; for (int i = 0; i < n * sizes[t]; i++) o |= p[i]; vs_check(o == 0, "new elements are zero");
    for (int i = 0; i < n * sizes[t]; i++) p[i] = 0xa5; // the whole storage is writable (checked by the engine)
    delete a; if (vs_symbolic()) vs_check(vs_isfreed(p), "~owned storage is released"); vs_cover("zeroed"); }
  else delete a;
}
ENTRY(wrapped) { //@ shards=3
  int rank = p_range("rank", 1, 3); int t = p_range("type", 0, 16); int d1 = p_range("d1", 0, 3), d2 = rank > 1 ? p_range("d2", 0, 2) : -1, d3 = rank > 2 ? p_range("d3", 0, 2) : -1; int kind = p_range("kind", 0, 1); int sz = sizes[t]; int n = d1 * (rank > 1 ? d2 : 1) * (rank > 2 ? d3 : 1);
  unsigned char *mem = kind ? (unsigned char *)backing : (unsigned char *)malloc(n * sz + 8); for (int i = 0; i < n * sz + 8; i++) mem[i] = (unsigned char)(i + 1);
  Array *a = new Array(mem, types[t], d1, d2, d3); unsigned char last = 0;
  if (n) {
    vs_check((unsigned char *)a->Address(0, rank > 1 ? 0 : -1, rank > 2 ? 0 : -1) == mem, "wrapped memory is used in place"); unsigned char *p = (unsigned char *)a->Address(d1 - 1, rank > 1 ? d2 - 1 : -1, rank > 2 ? d3 - 1 : -1); vs_check(p == mem + (n - 1) * sz, "wrapped memory is used in place, to its last element");
    memset(p, 0xee, sz); vs_check(mem[(n - 1) * sz] == 0xee && mem[n * sz - 1] == 0xee && mem[n * sz] == (unsigned char)(n * sz + 1), "wrapped memory is written"); vs_cover("wrapped");
  } else vs_cover("wrapped empty");
  last = mem[n * sz];
  delete a; if (vs_symbolic()) vs_check(!vs_isfreed(mem), "~wrapped memory is not released");
  vs_check(mem[n * sz] == last && (!n || mem[(n - 1) * sz] == 0xee), "wrapped memory survives the array"); mem[0] = 1; if (!kind) free(mem);
}
ENTRY(wrapnull) { int t = p_range("type", 0, 16); Array *a = new Array((void *)nullptr, types[t], 0); vs_check(a->get_Length() == 0, "no elements"); delete a; vs_cover("null storage"); } //@ twice=1
ENTRY(initialize) { //@ twice=1
  int t = p_range("type", 0, 16); int n = p_range("n", 0, 3); int sz = sizes[t]; unsigned char *src = (unsigned char *)malloc(n * sz + 1); for (int i = 0; i < n * sz; i++) src[i] = s_u8("b");
  Array *a = new Array(types[t], n); vs_check(a->Initialize(src) == a, "Initialize returns the array"); bool ok = true; for (int i = 0; i < n * sz; i++) ok = ok & (((unsigned char *)a->Address(i / sz))[i % sz] == src[i]); vs_check(ok, "Initialize copies every element"); vs_cover("init");
}
// shapes that cannot be stored are refused, never constructed with wrapped-around sizes
ENTRY(badshape) {
  int rank = p_range("rank", 1, 3); int t = p_range("type", 0, 16); int d1 = s_i32("d1"), d2 = -1, d3 = -1; if (rank > 1) d2 = s_i32("d2"); if (rank > 2) d3 = s_i32("d3");
  if (rank > 1) vs_assume(d2 == 65536 || (d2 < -1 && d2 > -1000) || d2 == 0x7fffffff || d2 == 3); if (rank > 2) vs_assume(d3 == 32768 || d3 < -1000 || d3 == 2); 
  Array *a = nullptr; int x = outcome([&] { a = new Array(backing, types[t], d1, d2, d3); });
  bool neg = d1 < 0 || (rank > 1 && d2 < 0) || (rank > 2 && d3 < 0);
  if (neg) vs_check(x == X_RANGE, "negative dimension is refused");
  else if (x == X_NONE) { __int128 tot = (__int128)d1 * (rank > 1 ? d2 : 1) * (rank > 2 ? d3 : 1); vs_check((__int128)a->get_Length() == tot, "total length is exact or the shape is refused"); vs_check(tot * sizes[t] <= 0x7fffffff, "storage size is representable or the shape is refused"); vs_cover("good"); }
  else vs_cover("refused");
}
ENTRY(large) { // bigger owned arrays start zeroed, whole, and are released
  static const int ns[] = {16, 17, 63, 129, 257, 1025}; int t = p_range("type", 0, 16), n = ns[p_range("n", 0, 5)], rank = p_range("rank", 1, 3); int d1 = rank == 1 ? n : n / 4, d2 = rank > 1 ? rank == 2 ? 4 : 2 : -1, d3 = rank > 2 ? 2 : -1; Array *a = new Array(types[t], d1, d2, d3); n = d1 * (rank > 1 ? 4 : 1); vs_check(a->get_Length() == n && a->GetLength(0) == d1 && a->GetUpperBound(0) == d1 - 1, "length");
  unsigned char *p = (unsigned char *)a->Address(0, rank > 1 ? 0 : -1, rank > 2 ? 0 : -1); unsigned o = 0; for (int i = 0; i < n * sizes[t]; i++) o |= p[i]; vs_check(o == 0, "new elements are zero"); p[n * sizes[t] - 1] = 1; vs_check((unsigned char *)a->Address(d1 - 1, rank > 1 ? d2 - 1 : -1, rank > 2 ? d3 - 1 : -1) == p + (n - 1) * sizes[t], "last element"); delete a; if (vs_symbolic()) vs_check(vs_isfreed(p), "~owned storage is released"); vs_cover("large");
}
// ---- huge: lengths far past every buffer and chunk size in the library
ENTRY(huge) { //@ shards=4 again=0 cost=2 steps=40000000
  int n = hugeLen("n"), t = p_range("type", (int)BooleanType, (int)StringType), two = p_range("two", 0, 1); Array *a = two ? new Array((DataType)t, n, 2) : new Array((DataType)t, n); int sz = DataTypeSize[t]; vs_check(a->get_Length() == (two ? 2 * n : n) && a->GetLength(0) == n && a->get_Rank() == 1 + two && a->GetUpperBound(0) == n - 1, "shape"); unsigned char *p = (unsigned char *)(two ? a->Address(0, 0) : a->Address(0)); bool z = true; for (int i = 0; i < a->get_Length() * sz; i++) z &= p[i] == 0; vs_check(z, "zeroed"); delete a; vs_cover("huge");
}
