// C17 string constructors
#include "vs.h"
//@bound sources of 17, 33 and 130 characters (thorough 15 lengths up to 257) around both ends; sources of 0..4 characters (thorough 0..6; any code 0..0x10ffff, NUL included; wrapped text 1..0x10ffff), start index and length over the full 32-bit range (lengths that fit the source for raw buffers, whose size is unknown to the constructor), repeated characters 0..8 times or a negative count; lengths 260, 600, 1030 and 4100 (thorough 17 lengths up to 8200) with one or two arbitrary characters and positions at the ends and the middle
//@assume an explicit length given with a raw character pointer lies inside the caller's buffer
static int N() { return THOROUGH() ? 6 : 4; }
ENTRY(raw) { //@ shards=5 tshards=7
  int n = p_range("n", 0, N()); Char o[8]; Char *b = (Char *)malloc(sizeof(Char) * (n + 1)); for (int i = 0; i < n; i++) o[i] = b[i] = s_char("c"); b[n] = 0; int form = p_range("form", 0, 1); int s = s_i32("start"), len = -1; if (form) { len = s_i32("len"); vs_assume(len <= n && (len < 0 || s < 0 || s > n || (int64_t)s + len <= n)); }
  String *r = nullptr; int x = outcome([&] { r = form ? new String(b, s, len) : new String(b, s); }); int z = 0; while (z < n && o[z]) z++; // the text ends at its first NUL, an explicit length may go further
  if (s < 0 || s > z) { vs_check(argerr(x), "start outside the text raises"); vs_cover("raw refused"); return; }
  vs_check(x == X_NONE, "start inside"); s = (int)vs_pick(s); int L = len < 0 ? z - s : (int)vs_pick(len); vs_check(isText(r, o + s, L), "exactly the requested characters"); vs_check(r->IsAllocated(), "own storage"); for (int i = 0; i < n; i++) b[i] = s_char("new"); vs_check(isText(r, o + s, L), "independent of the source"); free(b); vs_check(isText(r, o + s, L), "independent of the source's life"); vs_cover("raw");
}
// source not terminated: exactly len characters available
ENTRY(unterminated) { int n = p_range("n", 0, N()); Char o[8]; Char *b = (Char *)malloc(sizeof(Char) * (n ? n : 1)); for (int i = 0; i < n; i++) o[i] = b[i] = s_char("c"); int z = 0; while (z < n && o[z]) z++; int s = p_range("s", 0, z); String *r = new String(b, s, n - s); vs_check(isText(r, o + s, n - s), "exactly the requested characters"); free(b); vs_cover("unterminated"); } //@ twice=1
ENTRY(arr) { //@ shards=5 tshards=7
  int n = p_range("n", 0, N()); Char o[8]; Array *a = new Array(CharType, n); for (int i = 0; i < n; i++) *(Char *)a->Address(i) = o[i] = (Char)vs_range("c", 0, 0x10ffff); int form = p_range("form", 0, 2); int s = 0, len = -1; if (form) s = s_i32("start"); if (form == 2) len = s_i32("len");
  String *r = nullptr; int x = outcome([&] { r = form == 0 ? new String(a) : form == 1 ? new String(a, s) : new String(a, s, len); });
  if (s < 0 && x != X_NONE) { vs_check(argerr(x), "negative start may be refused"); return; } if (s < 0) s = 0; bool bad = s > n || (len >= 0 && (int64_t)s + len > n); if (bad && len == 0 && x == X_NONE) { vs_check(r->get_Length() == 0, "no characters requested"); return; }
  if (bad) { vs_check(argerr(x), "range outside the array raises"); vs_cover("array refused"); return; } vs_check(x == X_NONE, "range inside"); s = (int)vs_pick(s); int L = len < 0 ? n - s : (int)vs_pick(len); vs_check(isText(r, o + s, L), "exactly the requested characters"); for (int i = 0; i < n; i++) *(Char *)a->Address(i) = s_char("new"); vs_check(isText(r, o + s, L), "independent of the source"); delete a; vs_check(isText(r, o + s, L), "independent of the source's life"); vs_cover("array");
}
ENTRY(repeat) { int n = s_i32("n"); vs_assume(n <= 8); Char c = (Char)vs_range("c", 0, 0x10ffff); String *r = nullptr; int x = outcome([&] { r = new String(c, n); }); if (n < 0) { vs_check(argerr(x), "negative count raises"); vs_cover("repeat refused"); return; } n = (int)vs_pick(n); bool ok = x == X_NONE && r->get_Length() == n; vs_check(ok, "length"); Char e[9]; for (int i = 0; i < n; i++) e[i] = c; vs_check(isText(r, e, n), "repeated character"); vs_cover("repeat"); } //@ twice=1
ENTRY(wrap) { int n = p_range("n", 0, N()); Char *b = (Char *)malloc(sizeof(Char) * (n + 1)); Char o[8]; for (int i = 0; i < n; i++) o[i] = b[i] = s_nz("c"); b[n] = 0; { String s(b); vs_check(isText(&s, o, n) && s.get_Buffer() == b && !s.IsAllocated(), "wraps the text up to its end"); for (int i = 0; i < n; i++) vs_check(s.get_Chars(i) == o[i] && *s.Address(i) == o[i], "characters"); int k = s_i32("k"); if (k < 0 || k >= n) vs_check(outcome([&] { s.get_Chars(k); }) == X_INDEX, "position outside raises"); } vs_check(eqChars(b, o, n), "wrapped memory stays with its owner"); free(b); vs_cover("wrap"); } //@ again=0 twice=1
ENTRY(other) { int n = p_range("n", 0, N()); Char b[8]; for (int i = 0; i < n; i++) b[i] = s_nz("c"); b[n] = 0; Char w[8]; memcpy(w, b, sizeof w); String *s = new String(w), *r = String::Copy(s); for (int i = 0; i < n; i++) w[i] = s_nz("new"); vs_check(isText(r, b, n), "copy is independent"); vs_cover("copy"); } //@ twice=1
ENTRY(nulls) { //@ twice=1
  int k = p_range("k", 0, 4); int s = s_i32("s"), l = s_i32("l"); String *r = nullptr; const Char *z = nullptr; Array *za = nullptr; int x = outcome([&] { switch (k) { case 0: r = new String(z); break; case 1: r = new String(z, s, l); break; case 2: r = new String(za); break; case 3: r = new String(za, s, l); break; case 4: r = new String(z, s); break; } });
  if (x == X_NONE) vs_check(r->get_Length() == 0 && r->get_Buffer()[0] == 0, "null source is empty"); else vs_check(argerr(x), "null source raises"); vs_cover("null");
}
ENTRY(wrongtype) { Array *a = new Array(Int32Type, 2), *b = new Array(CharType, 2, 2); int k = p_range("k", 0, 1); vs_check(outcome([&] { new String(k ? a : b); }) != X_NONE, "array of another type or shape raises"); vs_cover("wrong type"); } //@ twice=1
ENTRY(lifetime) { // destroying an allocated string releases its storage exactly once; a literal is never released //@ twice=1
  int n = p_range("n", 0, 3); Char b[4]; for (int i = 0; i < n; i++) b[i] = s_char("c"); b[n] = 0; String *r = new String(b, 0, n); delete r; String *l = new String(b); delete l; vs_check(b[n] == 0, "literal intact"); String *e = String::Empty; vs_check(e->get_Length() == 0 && e->get_Buffer()[0] == 0, "the empty string"); vs_cover("lifetime");
}
ENTRY(longer) { // longer sources, around the ends
  int n = longLen("n"), kind = p_range("kind", 0, 3), s = inner("s", n), k = edge("k", n - s); static Char o[270]; Char *b = (Char *)malloc(sizeof(Char) * (n + 1)); for (int i = 0; i < n; i++) o[i] = b[i] = i == 1 || i == n - 1 ? s_nz("c") : i + 60; o[n] = b[n] = 0; Array *a = new Array(CharType, n); for (int i = 0; i < n; i++) *(Char *)a->Address(i) = o[i]; String *r = nullptr; if (kind == 0 && k > n - s) vs_stop(); if (kind == 2 && k > 1000) vs_stop(); int x = outcome([&] { r = kind == 0 ? new String(b, s, k) : kind == 1 ? new String(a, s, k) : kind == 2 ? new String(o[1], k) : String::Copy(mkString(b, n)); });
  if (kind == 2) { if (k < 0) { vs_check(argerr(x), "negative count raises"); return; } for (int i = 0; i < k; i++) b[i] = o[1]; vs_check(x == X_NONE && isText(r, b, k), "repeated character"); return; } if (kind == 3) { vs_check(isText(r, o, n), "a copy"); return; } if (k > n - s) { vs_check(argerr(x), "range outside raises"); return; } vs_check(x == X_NONE && isText(r, o + s, k < 0 ? n - s : k), "exactly the requested characters"); free(b); delete a; vs_check(isText(r, o + s, k < 0 ? n - s : k), "independent of the source"); vs_cover("longer");
}
// ---- huge: lengths far past every buffer and chunk size in the library
ENTRY(huge) { //@ shards=4 again=0 cost=2 steps=40000000
  int n = hugeLen("n"), kind = p_range("kind", 0, 4), s = p_range("s", 0, 1) * (n / 2), m = n - s - 1; static Char c[8300]; for (int i = 0; i < n; i++) c[i] = 'a' + i % 26; c[n - 1] = s_nz("c"); c[n / 2] = s_nz("c"); c[n] = 0; String *r = nullptr; Array *a = new Array(CharType, n); for (int i = 0; i < n; i++) *(Char *)a->Address(i) = c[i]; Char z = s_char("z");
  switch (kind) { case 0: r = new String(c); s = 0; m = n; break; case 1: r = new String(c, s); m = n - s; break; case 2: r = new String(c, s, m); break; case 3: r = new String(a, s, m); break; case 4: r = new String(z, n); for (int i = 0; i < n; i++) c[i] = z; s = 0; m = n; break; } vs_check(isText(r, c + s, m), "exactly the requested characters"); vs_cover("huge");
}
