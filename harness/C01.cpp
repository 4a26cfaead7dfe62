// C01 element addressing: in bounds, row-major, injective, checked
#include "vs.h"
//@bound rank 1: any length 0..2^31-1 (wrapped storage, any 32-bit indices); rank 2/3: inner dimensions 1..4 (thorough 1..7) by value, outer dimension any length whose storage fits 2^31 bytes, all index tuples over the full 32-bit range
//@bound owned storage (memory accessed through the returned address): dimensions 0..3 each, all element types
//@assume storage of an array is at most 2^31-1 bytes (larger shapes must be refused by the constructor)
static const DataType types[] = {ObjectType, BooleanType, CharType, SByteType, ByteType, Int16Type, UInt16Type, Int32Type, UInt32Type, Int64Type, UInt64Type, SingleType, DoubleType, DateTimeType, TimeSpanType, StringType};
static const int sizes[] = {8, 1, 4, 1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 8, 8, 8};
static const int reps[] = {1, 2, 3, 5, 9}; // one type per element size
static char backing[16];
static void shape(int rank) {
  int t = reps[p_range("type", 0, 4)]; int sz = sizes[t];
  int d1 = s_i32("d1"), d2 = -1, d3 = -1; vs_assume(d1 >= 0);
  int m = THOROUGH() ? 7 : 4; if (rank > 1) d2 = p_range("d2", 0, m); if (rank > 2) d3 = p_range("d3", 0, m);
  int64_t inner = (rank > 1 ? d2 : 1) * (rank > 2 ? d3 : 1); int64_t outer = (rank > 1 && d2 > 0 ? d2 : 1) * (rank > 2 && d3 > 0 ? d3 : 1); vs_assume((int64_t)d1 * (outer * sz) <= 0x7fffffff);
  Array *a = new Array(backing, types[t], d1, d2, d3);
  vs_check(a->get_Length() == (int)(d1 * inner), "total length");
  int i[2], j[2] = {-1, -1}, k[2] = {-1, -1}; char *p[2]; int x[2]; bool in[2];
  for (int q = 0; q < 2; q++) {
    i[q] = s_i32("i"); if (rank > 1) j[q] = s_i32("j"); if (rank > 2) k[q] = s_i32("k");
    in[q] = (i[q] >= 0) & (i[q] < d1); if (rank > 1) in[q] = in[q] & (j[q] >= 0) & (j[q] < d2); if (rank > 2) in[q] = in[q] & (k[q] >= 0) & (k[q] < d3);
    if (q == 1) vs_assume(in[q]); // the first tuple is unrestricted, the second one valid
    x[q] = outcome([&] { p[q] = (char *)a->Address(i[q], j[q], k[q]); });
    if (in[q]) { vs_check(x[q] == X_NONE, "valid indices are accepted");
      int64_t off = p[q] - backing; vs_check(off >= 0 && off + sz <= (int64_t)d1 * (inner * sz), "address inside the storage");
      vs_check(off == ((int64_t)i[q] * inner + (rank > 1 ? (rank > 2 ? j[q] * (int64_t)d3 + k[q] : j[q]) : 0)) * sz, "row-major element address"); vs_cover("valid"); }
    else { vs_check(x[q] == X_INDEX, "bad index raises index-out-of-range"); vs_cover("invalid"); return; }
  }
  bool same = i[0] == i[1] && j[0] == j[1] && k[0] == k[1];
  int64_t d = p[0] - p[1]; if (same) vs_check(d == 0, "same tuple, same element"); else vs_check(d >= sz || d <= -sz, "distinct tuples share no byte");
}
ENTRY(rank1) { shape(1); } //@ cost=1 twice=1
ENTRY(rank2) { shape(2); } //@ shards=2 cost=2 tshards=5
ENTRY(rank3) { shape(3); } //@ shards=5 cost=3
// too many or too few indices for the rank
ENTRY(arity) { //@ twice=1
  int rank = p_range("rank", 1, 3); Array *a = new Array(Int32Type, 2, rank > 1 ? 2 : -1, rank > 2 ? 2 : -1);
  int i = s_i32("i"), j = s_i32("j"), k = s_i32("k"); int x = outcome([&] { a->Address(i, j, k); });
  bool ok = i >= 0 && i < 2 && (rank > 1 ? j >= 0 && j < 2 : j < 0) && (rank > 2 ? k >= 0 && k < 2 : k < 0);
  vs_check((x == X_NONE) == ok, "index tuple must match the rank"); if (!ok) vs_check(x == X_INDEX, "index-out-of-range for a tuple not matching the rank"); vs_cover("arity");
}
// owned storage: write one element, every other element keeps its value (bytes 0 from construction)
ENTRY(owned) { //@ shards=4 cost=3
  int t = p_range("type", 0, 15); int sz = sizes[t]; int rank = p_range("rank", 1, 3);
  int lo = THOROUGH() ? 1 : 2, hi = 3;
  int d1 = p_range("d1", 1, 3), d2 = rank > 1 ? p_range("d2", lo, hi) : -1, d3 = rank > 2 ? p_range("d3", lo, hi) : -1;
  Array *a = new Array(types[t], d1, d2, d3);
  int i = (int)vs_range("i", 0, d1 - 1), j = rank > 1 ? (int)vs_range("j", 0, d2 - 1) : -1, k = rank > 2 ? (int)vs_range("k", 0, d3 - 1) : -1;
  uint64_t v = s_u64("v"); memcpy(a->Address(i, j, k), &v, sz);
  bool ok = true;
  for (int q = 0; q < d1; q++) for (int r = 0; r < (rank > 1 ? d2 : 1); r++) for (int s = 0; s < (rank > 2 ? d3 : 1); s++) {
    uint64_t got = 0; memcpy(&got, a->Address(q, rank > 1 ? r : -1, rank > 2 ? s : -1), sz);
    uint64_t want = vs_ite((q == i) & ((rank < 2) | (r == j)) & ((rank < 3) | (s == k)), sz == 8 ? v : v & ((1ull << (8 * (sz & 7))) - 1), 0); ok = ok & (got == want); }
  vs_check(ok, "a write reaches its own element only"); vs_cover("owned");
}
