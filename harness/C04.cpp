// C04 Array.IndexOf
#include "vs.h"
//@bound longer arrays (17, 33, 130 elements, thorough 15 lengths up to 257) with one or two matches; object arrays of 0..3 elements (thorough 0..4), each null, a boxed Int32 of any value or a one-character string; searched value likewise or null; start index over the full 32-bit range, count any value >= -1 (-1: to the end); lengths 260, 600, 1030 and 4100 (thorough 17 lengths up to 8200) with one or two arbitrary elements and positions at the ends and the middle
static Object *elem(int kind, int v) { if (kind == 0) return nullptr; if (kind == 1) return new Int32Value(v); Char c[2] = {(Char)v, 0}; return mkString(c, 1); }
ENTRY(search) { //@ shards=4 cost=3
  int n = p_range("n", 0, THOROUGH() ? 4 : 3); int kind[4], v[4]; Array *a = new Array(ObjectType, n);
  for (int i = 0; i < n; i++) { kind[i] = p_range("kind", 0, 2); v[i] = kind[i] == 1 ? s_i32("v") : kind[i] == 2 ? s_char("ch") : 0; *(Object **)a->Address(i) = elem(kind[i], v[i]); }
  int k = p_range("vkind", 0, 2), w = k == 1 ? s_i32("w") : k == 2 ? s_char("wch") : 0; Object *o = elem(k, w);
  int start = s_i32("start"), count = s_i32("count"); vs_assume(count >= -1); int r = -2; int x = outcome([&] { r = Array::IndexOf(a, o, start, count); });
  int64_t end = count == -1 ? n : (int64_t)start + count; bool ok = start >= 0 && start <= n && end <= n;
  if (!ok) { vs_check(argerr(x), "range outside the array raises an argument error"); vs_cover("bad range"); return; }
  vs_check(x == X_NONE, "valid range is searched"); int e = -1; for (int i = n - 1; i >= 0; i--) e = (int)vs_ite((i >= start) & (i < end) & (kind[i] == k) & (v[i] == w), i, e);
  vs_check(r == e, "lowest equal element or -1"); vs_cover("searched");
}
ENTRY(defaults) { //@ twice=1
  int n = p_range("n", 0, 2); Array *a = new Array(ObjectType, n); int v[2]; for (int i = 0; i < n; i++) { v[i] = s_i32("v"); *(Object **)a->Address(i) = new Int32Value(v[i]); } int w = s_i32("w"); int e = -1; for (int i = n - 1; i >= 0; i--) if (v[i] == w) e = i;
  Int32Value o(w); vs_check(Array::IndexOf(a, &o) == e, "whole array"); vs_cover("defaults");
}
ENTRY(strings) { // string arrays compare by content //@ twice=1
  Array *a = new Array(StringType, 2); Char c[2][3]; for (int i = 0; i < 2; i++) { c[i][0] = s_char("c"); c[i][1] = s_char("c"); c[i][2] = 0; *(Object **)a->Address(i) = mkString(c[i], 2); } Char d[3] = {s_char("d"), s_char("d"), 0}; String *s = mkString(d, 2);
  int e = eqChars(c[0], d, 2) ? 0 : eqChars(c[1], d, 2) ? 1 : -1; vs_check(Array::IndexOf(a, s) == e, "content equality"); vs_cover("strings");
}
ENTRY(invalid) { //@ twice=1
  int k = p_range("k", 0, 1); Int32Value o(1); int x = X_NONE; int st = s_i32("s"), ct = s_i32("c"); vs_assume(ct >= -1); if (k == 0) x = outcome([&] { Array::IndexOf(nullptr, &o, st, ct); }); if (k == 1) x = outcome([&] { Array::IndexOf(new Array(ObjectType, 2, 2), &o, st, ct); }); vs_check(x == (k ? X_RANK : X_NULL), "raises"); vs_cover("invalid");
}
ENTRY(long_search) { // one match anywhere in a longer array, ranges around it //@ twice=1
  int n = longLen("n"); Array *a = new Array(ObjectType, n); Int32 w = s_i32("w"); int at = inner("at", n), twice = p_range("twice", 0, 1); for (int i = 0; i < n; i++) *(Object **)a->Address(i) = i == at || (twice && i == at + 1) ? (Object *)new Int32Value(w) : i % 3 ? nullptr : i % 2 ? (Object *)new Int64Value(w) : (Object *)String::Empty; Int32Value o(w);
  int s = edge("s", n), d = p_range("dc", 0, 3), c = d == 0 ? -1 : d == 1 ? at - s : d == 2 ? at - s + 1 : n; if (c < -1) vs_stop(); int r = -2, x = outcome([&] { r = Array::IndexOf(a, &o, s, c); }); int64_t e = c == -1 ? n : (int64_t)s + c; bool ok = s >= 0 && s <= n && e <= n; if (!ok) { vs_check(argerr(x), "range outside the array raises an argument error"); return; } vs_check(x == X_NONE, "valid range is searched"); vs_check(r == (at >= s && at < e ? at : twice && at + 1 < n && at + 1 >= s && at + 1 < e ? at + 1 : -1), "lowest equal element or -1"); vs_cover("long search");
}
// ---- huge: lengths far past every buffer and chunk size in the library
ENTRY(huge) { //@ shards=4 again=0 cost=2 steps=40000000
  int n = hugeLen("n"), at = p_range("at", 0, 3); at = at == 0 ? 0 : at == 1 ? n / 2 : at == 2 ? n - 1 : n; Int32 w = s_i32("w"), u = s_i32("u"); Array *a = new Array(ObjectType, n); Int32Value *other = new Int32Value(u); for (int i = 0; i < n; i++) *(Object **)a->Address(i) = i == at ? (Object *)new Int32Value(w) : i == n - 2 ? (Object *)other : i % 3 ? nullptr : (Object *)String::Empty; Int32Value o(w); int e = at < n ? at : -1; if (u == w && (e < 0 || n - 2 < e)) e = n - 2; vs_check(Array::IndexOf(a, &o) == e, "lowest equal element or -1"); vs_check(Array::IndexOf(a, &o, 0, n - 2) == (at < n - 2 ? at : -1), "inside the range only"); vs_cover("huge");
}
