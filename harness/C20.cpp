// C20 CharEnumerator
#include "vs.h"
//@bound whole runs over 17, 33 and 130 characters (thorough 15 lengths up to 257), interrupted and reset anywhere; all strings of 0..3 characters (thorough 0..5; any code), all histories of up to 7 steps (thorough 10) of advance, read and reset; two enumerators over one string interleaved; lengths 260, 600, 1030 and 4100 (thorough 17 lengths up to 8200) with one or two arbitrary characters and positions at the ends and the middle
struct R { int pos, n; Char *c; };
static void step(CharEnumerator *e, R &r, int op) {
  if (op == 0) { bool m = e->MoveNext(); if (r.pos < r.n) r.pos++; vs_check(m == (r.pos < r.n), "advance reports whether a character is there"); if (m) vs_cover("advanced"); else vs_cover("ended"); }
  else if (op == 1) { Char c = 0; int x = outcome([&] { c = e->get_Current(); }); if (r.pos >= 0 && r.pos < r.n) { vs_check(x == X_NONE && c == r.c[r.pos], "current character"); vs_cover("read"); } else { vs_check(x == X_INVALID, "no current character raises"); vs_cover("read refused"); } }
  else { e->Reset(); r.pos = -1; vs_cover("reset"); }
}
ENTRY(history) { //@ shards=4 tshards=6
  int n = p_range("n", 0, THOROUGH() ? 5 : 3); Char c[8]; for (int i = 0; i < n; i++) c[i] = (Char)vs_range("c", 0, 0x10ffff); String *s = mkString(c, n); CharEnumerator *e = p_range("via", 0, 1) ? s->GetEnumerator() : new CharEnumerator(s); R r = {-1, n, c}; int k = THOROUGH() ? 10 : 7; for (int i = 0; i < k; i++) step(e, r, p_range("op", 0, 2)); vs_check(isText(s, c, n), "string unchanged"); vs_cover("history");
}
ENTRY(whole) { int n = p_range("n", 0, THOROUGH() ? 12 : 6); Char c[16]; for (int i = 0; i < n; i++) c[i] = s_char("c"); CharEnumerator *e = mkString(c, n)->GetEnumerator(); for (int round = 0; round < 2; round++) { for (int i = 0; i < n; i++) { vs_check(e->MoveNext(), "one more"); vs_check(e->get_Current() == c[i], "in order"); } for (int i = 0; i < 3; i++) vs_check(!e->MoveNext(), "stays ended"); e->Reset(); } vs_cover("whole"); } //@ twice=1
ENTRY(longer) { int n = longLen("n"); static Char c[270]; for (int i = 0; i < n; i++) c[i] = i % 16 == 15 ? s_char("c") : i % 5 ? i : 0; CharEnumerator *e = mkString(c, n)->GetEnumerator(); int stop = inner("stop", n); R r = {-1, n, c}; for (int i = 0; i < stop; i++) { step(e, r, 0); step(e, r, 1); } if (p_range("reset", 0, 1)) step(e, r, 2); for (int i = 0; i < n + 2; i++) { step(e, r, 0); step(e, r, 1); } vs_cover("longer"); } //@ twice=1
ENTRY(two) { int n = p_range("n", 1, 2); Char c[4]; for (int i = 0; i < n; i++) c[i] = s_char("c"); String *s = mkString(c, n); CharEnumerator *e = s->GetEnumerator(), *f = s->GetEnumerator(); R r = {-1, n, c}, q = {-1, n, c}; for (int i = 0; i < (THOROUGH() ? 6 : 4); i++) { int op = p_range("op", 0, 5); if (op < 3) step(e, r, op); else step(f, q, op - 3); } vs_cover("two"); }
// ---- huge: lengths far past every buffer and chunk size in the library
ENTRY(huge) { //@ shards=4 again=0 cost=2 steps=40000000
  int n = hugeLen("n"); static Char c[8300]; for (int i = 0; i < n; i++) c[i] = 'a' + i % 26; c[n - 1] = s_char("c"); c[n / 2] = s_char("c"); CharEnumerator *e = mkString(c, n)->GetEnumerator(); for (int i = 0; i < n; i++) { bool m = e->MoveNext(); vs_check(m && e->get_Current() == c[i], "each character in order"); } vs_check(!e->MoveNext() && !e->MoveNext(), "then no more"); e->Reset(); vs_check(e->MoveNext() && e->get_Current() == c[0], "again from the first"); vs_cover("huge");
}
