// C08 BitConverter.ToString
#include "vs.h"
//@bound arrays of 0..4 bytes (thorough 0..7, and 43 bytes whose text crosses the builder's internal buffer) with every content; start index and length over the full 32-bit range; lengths 260, 600, 1030 and 4100 (thorough 17 lengths up to 8200) with one or two arbitrary bytes and positions at the ends and the middle
//@assume a length of -1 means the rest of the array (the documented default)
static Char hex(int d) { return (Char)(d + '0' + (d > 9) * ('A' - '0' - 10)); }
static void check(Array *a, const uint8_t *c, int n, int form) {
  int s = 0, k = -1; if (form) s = s_i32("start"); if (form == 2) k = s_i32("len"); String *r = nullptr; int x = outcome([&] { r = form == 0 ? BitConverter::ToString(a) : form == 1 ? BitConverter::ToString(a, s) : BitConverter::ToString(a, s, k); });
  int64_t L = k == -1 ? (int64_t)n - s : k; bool ok = s >= 0 && s <= n && L >= 0 && s + L <= n; if (ok && s == n && n > 0 && x != X_NONE) { vs_check(x == X_RANGE || x == X_ARG, "an empty range at the end may be refused"); return; }
  if (!ok) { vs_check(x == X_RANGE || x == X_ARG, "a range outside raises an argument error"); vs_cover("refused"); return; } vs_check(x == X_NONE, "a range inside"); s = (int)vs_pick(s); L = (int64_t)vs_pick(L); Char e[160]; int m = 0; for (int i = 0; i < L; i++) { if (i) e[m++] = '-'; e[m++] = hex(c[s + i] >> 4); e[m++] = hex(c[s + i] & 15); } vs_check(isText(r, e, m), "two upper-case digits per byte, joined by hyphens"); if (L > 1) vs_cover("text"); if (!L) vs_cover("empty");
}
static Array *mk(uint8_t *c, int n) { Array *a = new Array(ByteType, n); for (int i = 0; i < n; i++) *(Byte *)a->Address(i) = c[i] = s_u8("b"); return a; }
ENTRY(ranges) { int n = p_range("n", 0, 4); uint8_t c[8]; Array *a = mk(c, n); check(a, c, n, p_range("form", 0, 2)); for (int i = 0; i < n; i++) vs_check(*(Byte *)a->Address(i) == c[i], "array unchanged"); } //@ cost=3 tmo=150 shards=5 qt=20000
ENTRY(longer) { int n = p_range("n", 5, 7); uint8_t c[8]; Array *a = mk(c, n); check(a, c, n, 0); } //@ tier=thorough ttmo=1500
ENTRY(internal) { uint8_t c[48]; int n = p_range("n", 42, 44); Array *a = new Array(ByteType, n); for (int i = 0; i < n; i++) *(Byte *)a->Address(i) = c[i] = i == n - 1 ? s_u8("b") : i * 7; check(a, c, n, 0); vs_cover("long"); } //@ twice=1
ENTRY(nulls) { int s = s_i32("s"), k = s_i32("k"); vs_check(outcome([&] { BitConverter::ToString(nullptr, s, k); }) == X_NULL, "null raises"); vs_cover("null"); } //@ twice=1
// ---- huge: lengths far past every buffer and chunk size in the library
ENTRY(huge) { //@ shards=4 again=0 cost=2 steps=40000000
  int n = hugeLen("n"); Array *a = new Array(ByteType, n); static uint8_t c[8300]; for (int i = 0; i < n; i++) *(Byte *)a->Address(i) = c[i] = i == n - 1 ? s_u8("b") : (uint8_t)(i * 7 + i / 256); int s = p_range("s", 0, 1) * (n - 3); static Char e[25000]; int m = 0; for (int i = s; i < n; i++) { if (i > s) e[m++] = '-'; e[m++] = hex(c[i] >> 4); e[m++] = hex(c[i] & 15); } e[m] = 0; vs_check(isText(BitConverter::ToString(a, s), e, m), "two upper-case digits per byte, joined by hyphens"); vs_cover("huge");
}
