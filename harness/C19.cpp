// C19 capacity invariants of StringBuilder
#include "sb.h"
//@bound constructor arguments: 30 capacities up to 300, every negative capacity, every capacity above the maximum, every maximum (32-bit), maximum capacities {1,2,3,5,127,128,129,200} and unlimited; all histories of up to 2 steps (thorough 3) of append, repeat, insert, remove, clear, length change, capacity change and capacity request with the arguments {0..5,126..130,200,201,300}, every negative argument and every argument above the maximum; lengths 260, 600, 1030 and 4100 (thorough 17 lengths up to 8200) with one or two arbitrary characters and positions at the ends and the middle
static void inv(StringBuilder *b, const M &m) { same(b, m); }
ENTRY(construct) {
  int form = p_range("form", 0, 1); int max = INT32_MAX; if (form) max = s_i32("max"); static const int caps[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130, 199, 200, 201, 255, 256, 257, 300}; int ci = p_range("capi", 0, 30), cap; if (ci < 30) cap = caps[ci]; else { cap = s_i32("cap"); vs_assume(cap < 0 || cap > max); } StringBuilder *b = nullptr; int x = outcome([&] { b = form ? new StringBuilder(cap, max) : new StringBuilder(cap); });
  bool ok = cap >= 0 && max >= 1 && cap <= max; if (!ok) { vs_check(argerr(x), "bad capacities raise"); vs_cover("bad capacity"); return; } vs_check(x == X_NONE, "constructs"); vs_check(b->get_Length() == 0 && b->get_MaxCapacity() == max, "empty, with the maximum asked for"); vs_check(b->get_Capacity() >= cap && b->get_Capacity() <= max, "requested <= capacity <= maximum"); vs_cover("construct");
  Char c = s_char("c"); b->Append(c); vs_check(b->get_Length() == 1 && b->get_Capacity() >= 1 && b->get_Capacity() <= max && b->get_Buffer()[0] == c && b->get_Buffer()[1] == 0, "usable");
} //@ shards=3 cost=3 tmo=150
static const int maxes[] = {1, 2, 3, 5, 127, 128, 129, 200, INT32_MAX};
static void one(StringBuilder *b, M &m) {
  int op = p_range("op", 0, 8), x = X_NONE; bool ok = true; int cap = b->get_Capacity(), room = m.max - m.n; int k = 0;
  static const int picks[] = {0, 1, 2, 3, 4, 5, 126, 127, 128, 129, 130, 200, 201, 300};
  if (op <= 1 || (op >= 6)) { int i = p_range("ki", 0, 15); if (i == 14) { k = s_i32("k"); vs_assume(k < 0); } else if (i == 15) { if (m.max == INT32_MAX) vs_stop(); k = s_i32("k"); vs_assume(k > m.max); } else { k = picks[i]; } }
  switch (op) {
  case 0: { Char c = s_char("c"); DO(b->Append(c, k)); ok = k >= 0 && k <= room; if (ok) { k = (int)vs_pick(k); for (int i = 0; i < k; i++) m.c[m.n++] = c; } break; }
  case 1: { static Char buf[301]; for (int i = 0; i < 300; i++) buf[i] = 0x200 + i; if (k > 300) { Txt t = txt("t", 1, 1); DO(b->Insert(0, t.s, k)); ok = k <= room; vs_assume(!ok); break; } DO(b->Append(buf, k)); ok = k >= 0 && k <= room; if (ok) { k = (int)vs_pick(k); mapp(m, m.n, buf, k); } break; }
  case 2: { Txt t = txt("t", 0, 2); DO(b->Insert(0, t.s)); ok = t.n <= room; if (ok) mapp(m, 0, t.c, t.n); break; }
  case 3: { int s = m.n ? p_range("s", 0, m.n > 4 ? 4 : m.n) : 0; DO(b->Remove(s, m.n - s)); mdel(m, s, m.n - s); break; }
  case 4: { DO(b->Clear()); m.n = 0; break; }
  case 5: { DO(b->AppendLine()); ok = room >= 2; if (ok) mapp(m, m.n, L"\r\n", 2); break; }
  case 6: { DO(b->set_Length(k)); ok = k >= 0 && k <= m.max; if (ok) { k = (int)vs_pick(k); for (int i = m.n; i < k; i++) m.c[i] = 0; m.n = k; } break; }
  case 7: { int c = 0; DO(c = b->EnsureCapacity(k)); ok = k >= 0 && k <= m.max; if (ok) vs_check(x == X_NONE && c >= k && c >= cap && c == b->get_Capacity(), "room for the request"); else vs_check(b->get_Capacity() == cap, "capacity unchanged"); break; }
  case 8: { DO(b->set_Capacity(k)); ok = k >= m.n && k <= m.max; if (ok && x != X_NONE && k < cap) { vs_check(x == X_RANGE, "shrinking may be refused"); inv(b, m); return; } if (ok) vs_check(b->get_Capacity() >= k, "capacity set"); else vs_check(b->get_Capacity() == cap, "capacity unchanged"); break; }
  }
  if (ok) { vs_check(x == X_NONE, "a valid change succeeds"); vs_cover("changed"); } else { vs_check(argerr(x), "past the maximum or below the length raises"); vs_cover("refused"); } inv(b, m);
}
static void history(int mi) { M m; m.n = 0; m.max = maxes[mi]; int cap = p_range("cap", 0, 1); StringBuilder *b = m.max == INT32_MAX ? new StringBuilder(cap) : new StringBuilder(cap, m.max); inv(b, m); int steps = THOROUGH() ? 3 : 2; for (int i = 0; i < steps; i++) one(b, m); vs_cover("history"); }
ENTRY(h1) { history(0); } //@ shards=2 cost=3 tmo=150 ttmo=1500
ENTRY(h2) { history(1); } //@ shards=2 cost=3 tmo=150 ttmo=1500
ENTRY(h3) { history(2); } //@ shards=2 cost=3 tmo=150 ttmo=1500
ENTRY(h5) { history(3); } //@ shards=2 cost=3 tmo=150 ttmo=1500
ENTRY(h127) { history(4); } //@ shards=2 cost=3 tmo=150 ttmo=1500
ENTRY(h128) { history(5); } //@ shards=2 cost=3 tmo=150 ttmo=1500
ENTRY(h129) { history(6); } //@ shards=2 cost=3 tmo=150 ttmo=1500
ENTRY(h200) { history(7); } //@ shards=2 cost=3 tmo=150 ttmo=1500
ENTRY(hmax) { history(8); } //@ shards=2 cost=3 tmo=150 ttmo=1500
// the last step that can be refused: Replace growing past the maximum, and edits in the middle of a full builder
ENTRY(full) { M m; int n = p_range("n", 1, 3); StringBuilder *b = build(m, n, n + p_range("extra", 0, 1)); posMode = 1; static const int ops[] = {0, 1, 2, 5, 8, 9, 10, 11, 12, 13, 14, 15, 16, 21, 22}; step(b, m, ops[p_range("op", 0, 14)], true); vs_cover("full"); }
// ---- huge: lengths far past every buffer and chunk size in the library
ENTRY(huge) { //@ shards=4 again=0 cost=2 steps=40000000
  int n = hugeLen("n"), form = p_range("form", 0, 3), max = form == 3 ? n : INT32_MAX; StringBuilder *b = form == 0 ? new StringBuilder() : form == 1 ? new StringBuilder(1) : form == 2 ? new StringBuilder(n - 1) : new StringBuilder(5, n); Char c = s_char("c"); static Char e[8700]; int len = 0; auto inv = [&] { vs_check(b->get_Length() == len && b->get_Capacity() >= len && b->get_Capacity() <= max && b->get_MaxCapacity() == max, "length <= capacity <= maximum capacity"); };
  while (len < n) { int k = n - len < 97 ? n - len : 97; b->Append(c, k); for (int i = 0; i < k; i++) e[len + i] = c; len += k; inv(); } vs_check(eqChars(b->get_Buffer(), e, len), "exact text"); if (form == 3) { vs_check(argerr(outcome([&] { b->Append(c); })), "past the maximum raises"); inv(); } else { int want = s_i32("want"); vs_assume(want <= n + 50); int cap = b->get_Capacity(), r = 0, x = outcome([&] { r = b->EnsureCapacity(want); }); if (want < 0) vs_check(argerr(x), "negative raises"); else vs_check(x == X_NONE && r >= want && r >= cap && r == b->get_Capacity(), "room for the request"); inv(); } vs_check(b->get_Length() == len && eqChars(b->get_Buffer(), e, len), "text kept"); b->Clear(); len = 0; inv(); vs_cover("huge");
}
