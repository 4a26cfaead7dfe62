// C03 Copy/CopyTo/ConstrainedCopy/Clear
#include "vs.h"
//@bound arrays of 0..3 elements (thorough 0..5) of element sizes 1,2,4,8 and object references with arbitrary contents; source index, destination index and length over the full 32-bit range (lengths 17, 33 and 130, thorough 15 up to 257: around both ends and the middle); same array, aliasing wrapped memory, and distinct arrays; lengths 260, 600, 1030 and 4100 (thorough 17 lengths up to 8200) with one or two arbitrary elements and positions at the ends and the middle
static const DataType types[] = {ByteType, Int16Type, Int32Type, Int64Type, ObjectType}; static const int sizes[] = {1, 2, 4, 8, 8};
static int N() { return THOROUGH() ? 5 : 3; }
static Array *mk(int t, int n) { Array *a = new Array(types[t], n); for (int i = 0; i < n; i++) { uint64_t v = s_u64("e"); memcpy(a->Address(i), &v, sizes[t]); } return a; }
static uint64_t at(Array *a, int i, int sz) { uint64_t v = 0; memcpy(&v, a->Address(i), sz); return v; }
static void copy(int which) {
  int t = p_range("type", 0, 4), sz = sizes[t]; int n = p_range("n", 0, N()); bool same = p_range("same", 0, 1); int m = same ? n : p_range("m", 0, N());
  Array *a = mk(t, n), *b = same ? a : mk(t, m); uint64_t ea[8], eb[8]; for (int i = 0; i < n; i++) ea[i] = at(a, i, sz); for (int i = 0; i < m; i++) eb[i] = at(b, i, sz);
  int si = 0, di = 0, len = 0; int x;
  if (which == 2) { di = s_i32("di"); len = n; x = outcome([&] { a->CopyTo(b, di); }); }
  else { len = s_i32("len"); if (which != 1) { si = s_i32("si"); di = s_i32("di"); }
    if (which == 0) x = outcome([&] { Array::Copy(a, si, b, di, len); }); if (which == 1) x = outcome([&] { Array::Copy(a, b, len); }); if (which == 3) x = outcome([&] { Array::ConstrainedCopy(a, si, b, di, len); }); }
  bool ok = len >= 0 && si >= 0 && di >= 0 && (int64_t)si + len <= n && (int64_t)di + len <= m;
  if (ok) { vs_check(x == X_NONE, "a range that fits is copied"); vs_cover("copied"); } else { vs_check(argerr(x), "a range that does not fit raises an argument error"); vs_cover("refused"); }
  bool good = true; for (int i = 0; i < m; i++) { uint64_t e = eb[i]; if (ok) for (int j = 0; j < n; j++) e = vs_ite((i >= di) & (i < di + len) & (j == si + (i - di)), ea[j], e); good = good & (at(b, i, sz) == e); }
  vs_check(good, "destination holds the old source range and nothing else changed"); if (!same) { good = true; for (int i = 0; i < n; i++) good = good & (at(a, i, sz) == ea[i]); vs_check(good, "source unchanged"); }
}
ENTRY(copy_range) { copy(0); } //@ shards=5 cost=3
ENTRY(copy_prefix) { copy(1); } //@ shards=1
ENTRY(copy_to) { copy(2); }
ENTRY(constrained) { copy(3); } //@ shards=5 cost=3
// two arrays wrapped around overlapping parts of one memory block
ENTRY(aliased) { //@ twice=1
  static unsigned char mem[16], old[16]; for (int i = 0; i < 16; i++) old[i] = mem[i] = s_u8("b"); int shift = p_range("shift", -3, 3); Array *a = new Array(mem + 4, ByteType, 8), *b = new Array(mem + 4 + shift, ByteType, 8);
  int len = p_range("len", 0, 8); Array::Copy(a, b, len); bool ok = true; for (int i = 0; i < 16; i++) { int j = i - 4 - shift; ok = ok & (mem[i] == (j >= 0 && j < len ? old[4 + j] : old[i])); } vs_check(ok, "as if through a temporary"); vs_cover("aliased"); vs_stop();
}
ENTRY(clear) { //@ shards=5
  int t = p_range("type", 0, 4), sz = sizes[t]; int n = p_range("n", 0, N()); Array *a = mk(t, n); uint64_t ea[8]; for (int i = 0; i < n; i++) ea[i] = at(a, i, sz); int s = s_i32("start"), len = s_i32("len");
  int x = outcome([&] { Array::Clear(a, s, len); }); bool ok = s >= 0 && len >= 0 && (int64_t)s + len <= n; if (ok) { vs_check(x == X_NONE, "a range that fits is cleared"); vs_cover("cleared"); } else { vs_check(argerr(x), "a range that does not fit raises an argument error"); vs_cover("clear refused"); }
  bool good = true; for (int i = 0; i < n; i++) good = good & (at(a, i, sz) == vs_ite(ok & (i >= s) & (i < s + len), 0, ea[i])); vs_check(good, "exactly the range is zeroed");
}
ENTRY(nulls) { //@ twice=1
  int k = p_range("k", 0, 6); Array *a = new Array(Int32Type, 2); *(Int32 *)a->Address(0) = 7; int x = X_NONE; int len = s_i32("len");
  switch (k) { case 0: x = outcome([&] { Array::Copy(nullptr, 0, a, 0, len); }); break; case 1: x = outcome([&] { Array::Copy(a, 0, nullptr, 0, len); }); break; case 2: x = outcome([&] { Array::Copy(nullptr, a, len); }); break; case 3: x = outcome([&] { a->CopyTo(nullptr, len); }); break;
  case 4: x = outcome([&] { Array::Clear(nullptr, 0, len); }); break; case 5: x = outcome([&] { Array::ConstrainedCopy(nullptr, 0, a, 0, len); }); break; case 6: x = outcome([&] { Array::Copy(a, nullptr, len); }); break; }
  vs_check(x == X_NULL, "null array raises"); vs_check(*(Int32 *)a->Address(0) == 7, "nothing changes"); vs_cover("null");
}
// different element types or ranks never copy bytes across
ENTRY(mismatch) { //@ twice=1
  int k = p_range("k", 0, 2); int len = s_i32("len"); Array *a = new Array(k == 0 ? Int64Type : Int32Type, 2, k == 1 ? 2 : -1), *b = new Array(k == 2 ? ByteType : Int32Type, 4); memset(b->Address(0), 0x33, k == 2 ? 4 : 16);
  int x = outcome([&] { Array::Copy(a, 0, b, 0, len); }); vs_check(x != X_NONE, "raises"); unsigned char *p = (unsigned char *)b->Address(0); bool ok = true; for (int i = 0; i < (k == 2 ? 4 : 16); i++) ok = ok & (p[i] == 0x33); vs_check(ok, "unchanged"); vs_cover("mismatch");
}
// two-dimensional arrays copy by flat element order
ENTRY(flat2d) { //@ twice=1
  Array *a = new Array(Int16Type, 2, 2), *b = new Array(Int16Type, 2, 2); Int16 ea[4], eb[4]; for (int i = 0; i < 4; i++) { *(Int16 *)a->Address(i / 2, i % 2) = ea[i] = s_i16("a"); *(Int16 *)b->Address(i / 2, i % 2) = eb[i] = s_i16("b"); }
  int si = s_i32("si"), di = s_i32("di"), len = s_i32("len"); int x = outcome([&] { Array::Copy(a, si, b, di, len); }); bool ok = len >= 0 && si >= 0 && di >= 0 && (int64_t)si + len <= 4 && (int64_t)di + len <= 4; vs_check((x == X_NONE) == ok, "range check");
  bool good = true; for (int i = 0; i < 4; i++) { uint64_t e = (uint16_t)eb[i]; for (int j = 0; j < 4; j++) e = vs_ite(ok & (i >= di) & (i < di + len) & (j == si + i - di), (uint16_t)ea[j], e); good = good & (*(UInt16 *)b->Address(i / 2, i % 2) == e); } vs_check(good, "exact range"); vs_cover("flat");
}
// ---- longer arrays: ranges around both ends and the middle
ENTRY(long_copy) { //@ shards=5 tmo=90
  int t = p_range("type", 0, 4), sz = sizes[t], n = longLen("n"), same = p_range("same", 0, 1), m = same ? n : n - 5; Array *a = new Array(types[t], n), *b = same ? a : new Array(types[t], m); static uint64_t ea[260], eb[260]; for (int i = 0; i < n; i++) { ea[i] = i == 0 || i == n / 2 || i == n - 1 ? s_u64("e") : 0x0102030405060708ull * (i + 1); if (sz < 8) ea[i] &= (1ull << 8 * sz) - 1; memcpy(a->Address(i), &ea[i], sz); } for (int i = 0; i < m; i++) { eb[i] = same ? ea[i] : (0xf0e0d0c0b0a09080ull + i) >> (8 - sz) * 8; memcpy(b->Address(i), &eb[i], sz); }
  int si = edge("si", n), di = inner("di", m), len = edge("len", n); int x = outcome([&] { Array::Copy(a, si, b, di, len); }); bool ok = len >= 0 && si >= 0 && (int64_t)si + len <= n && (int64_t)di + len <= m; vs_check(ok ? x == X_NONE : argerr(x), "exactly the ranges that fit are copied"); if (ok) vs_cover("long copy"); else vs_cover("long refused");
  bool g = true; for (int i = 0; i < m; i++) g = g & (at(b, i, sz) == (ok && i >= di && i < di + len ? ea[si + i - di] : eb[i])); vs_check(g, "destination holds the old source range and nothing else changed"); if (!same) { g = true; for (int i = 0; i < n; i++) g = g & (at(a, i, sz) == ea[i]); vs_check(g, "source unchanged"); }
}
ENTRY(long_clear) { //@ shards=5
  int t = p_range("type", 0, 4), sz = sizes[t], n = longLen("n"); Array *a = new Array(types[t], n); static uint64_t ea[260]; for (int i = 0; i < n; i++) { ea[i] = 0x0102030405060708ull * (i + 1); if (sz < 8) ea[i] &= (1ull << 8 * sz) - 1; memcpy(a->Address(i), &ea[i], sz); } int s = edge("s", n), len = edge("len", n); int x = outcome([&] { Array::Clear(a, s, len); }); bool ok = s >= 0 && len >= 0 && (int64_t)s + len <= n; vs_check(ok ? x == X_NONE : argerr(x), "exactly the ranges that fit are cleared"); bool g = true; for (int i = 0; i < n; i++) g = g & (at(a, i, sz) == (ok && i >= s && i < s + len ? 0 : ea[i])); vs_check(g, "exactly the range is zeroed"); vs_cover("long clear");
}
ENTRY(long_to) { int n = longLen("n"), m = n + p_range("more", -1, 3); Array *a = new Array(Int16Type, n), *b = new Array(Int16Type, m); for (int i = 0; i < n; i++) *(Int16 *)a->Address(i) = 7 * i + 1; int di = p_range("di", -1, 4); int x = outcome([&] { a->CopyTo(b, di); }); bool ok = di >= 0 && di + n <= m; vs_check(ok ? x == X_NONE : argerr(x), "exactly what fits is copied"); bool g = true; for (int i = 0; i < m; i++) g = g & (*(Int16 *)b->Address(i) == (ok && i >= di && i < di + n ? 7 * (i - di) + 1 : 0)); vs_check(g, "the whole array at the index, nothing else"); vs_cover("long to"); } //@ twice=1
// ---- huge: lengths far past every buffer and chunk size in the library
ENTRY(huge) { //@ shards=4 again=0 cost=2 steps=40000000
  int n = hugeLen("n"), t = p_range("type", 0, 4), sz = sizes[t], k = p_range("k", 0, 4), same = p_range("same", 0, 1); Array *a = new Array(types[t], n), *b = same ? a : new Array(types[t], n); static uint64_t ea[8300], eb[8300]; for (int i = 0; i < n; i++) { ea[i] = i == n - 1 || i == n / 2 ? s_u64("e") : 0x0102030405060708ull * (i + 1); if (sz < 8) ea[i] &= (1ull << 8 * sz) - 1; memcpy(a->Address(i), &ea[i], sz); }
  for (int i = 0; i < n; i++) { eb[i] = same ? ea[i] : 0x1121314151617181ull * (i + 3); if (sz < 8) eb[i] &= (1ull << 8 * sz) - 1; if (!same) memcpy(b->Address(i), &eb[i], sz); } int si = k == 1 ? 1 : k == 3 ? n / 2 : 0, di = k == 2 ? 1 : k == 4 ? n / 2 : 0, len = k == 0 ? n : k < 3 ? n - 1 : n - n / 2; Array::Copy(a, si, b, di, len);
  bool g = true; for (int i = 0; i < n; i++) g = g & (at(b, i, sz) == (i >= di && i < di + len ? ea[si + i - di] : eb[i])); vs_check(g, "destination holds the old source range and nothing else changed"); int c = p_range("c", 0, 1); Array::Clear(b, c, n - 2); g = true; for (int i = 0; i < n; i++) g = g & (at(b, i, sz) == (i >= c && i < c + n - 2 ? 0 : i >= di && i < di + len ? ea[si + i - di] : eb[i])); vs_check(g, "exactly the range is zeroed"); vs_cover("huge");
}
