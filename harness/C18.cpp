// C18 StringBuilder editing against an ideal sequence of characters
#include "sb.h"
//@bound one edit of every kind on texts of 0..3 characters (thorough 0..4) and 127..130 characters (thorough also 255..257, crossing each capacity step) with all 32-bit positions, counts and lengths (around both ends for long texts; searched characters below U+0100 there); all pairs of edits on texts of 0..2 characters (thorough: triples for a representative subset); operands of 0..2 characters; builders with a small maximum capacity; characters any code 1..0x10ffff, numbers -3..11; lengths 260, 600, 1030 and 4100 (thorough 17 lengths up to 8200) with one or two arbitrary characters and positions at the ends and the middle
//@assume real-number operands are the whole numbers -3..11 (other text is produced by the platform's %G)
static void one(int op) { M m; int n = p_range("n", 0, THOROUGH() ? 4 : 3); StringBuilder *b = build(m, n, Int32Value::MaxValue); same(b, m); step(b, m, op, false); vs_cover("one"); }
static void maxed(int op) { M m; int n = p_range("n", 0, 3), mx = p_range("max", n ? n : 1, n + 2); StringBuilder *b = build(m, n, mx); step(b, m, op, false); vs_cover("max"); }
static void longs(int op) { M m; int n = p_range("n", 126, THOROUGH() ? 131 : 129); StringBuilder *b = build(m, n, Int32Value::MaxValue); same(b, m); step(b, m, op, true); step(b, m, 0, true); vs_cover("long"); }
static void vlong(int op) { M m; int n = p_range("n", 255, 257); StringBuilder *b = build(m, n, p_range("mx", 0, 1) ? n : Int32Value::MaxValue); same(b, m); step(b, m, op, true);
  vs_cover("very long"); //@thorough
}
ENTRY(one_0) { one(0); } //@ cost=2
ENTRY(max_0) { maxed(0); }
ENTRY(long_0) { longs(0); } //@ cost=3
ENTRY(vlong_0) { vlong(0); } //@ tier=thorough
ENTRY(one_1) { one(1); } //@ cost=2
ENTRY(max_1) { maxed(1); }
ENTRY(long_1) { longs(1); } //@ cost=3
ENTRY(vlong_1) { vlong(1); } //@ tier=thorough
ENTRY(one_2) { one(2); } //@ cost=2
ENTRY(max_2) { maxed(2); }
ENTRY(long_2) { longs(2); } //@ cost=3
ENTRY(vlong_2) { vlong(2); } //@ tier=thorough
ENTRY(one_3) { one(3); } //@ cost=2
ENTRY(max_3) { maxed(3); }
ENTRY(long_3) { longs(3); } //@ cost=3
ENTRY(vlong_3) { vlong(3); } //@ tier=thorough
ENTRY(one_4) { one(4); } //@ cost=2
ENTRY(max_4) { maxed(4); }
ENTRY(long_4) { longs(4); } //@ cost=3
ENTRY(vlong_4) { vlong(4); } //@ tier=thorough
ENTRY(one_5) { one(5); } //@ cost=2
ENTRY(max_5) { maxed(5); }
ENTRY(long_5) { longs(5); } //@ cost=3
ENTRY(vlong_5) { vlong(5); } //@ tier=thorough
ENTRY(one_6) { one(6); } //@ cost=2
ENTRY(max_6) { maxed(6); }
ENTRY(long_6) { longs(6); } //@ cost=3
ENTRY(vlong_6) { vlong(6); } //@ tier=thorough
ENTRY(one_7) { one(7); } //@ cost=2
ENTRY(max_7) { maxed(7); }
ENTRY(long_7) { longs(7); } //@ cost=3
ENTRY(vlong_7) { vlong(7); } //@ tier=thorough
ENTRY(one_8) { one(8); } //@ cost=2
ENTRY(max_8) { maxed(8); }
ENTRY(long_8) { longs(8); } //@ cost=3
ENTRY(vlong_8) { vlong(8); } //@ tier=thorough
ENTRY(one_9) { one(9); } //@ cost=2
ENTRY(max_9) { maxed(9); }
ENTRY(long_9) { longs(9); } //@ cost=3
ENTRY(vlong_9) { vlong(9); } //@ tier=thorough
ENTRY(one_10) { one(10); } //@ cost=2
ENTRY(max_10) { maxed(10); }
ENTRY(long_10) { longs(10); } //@ cost=3
ENTRY(vlong_10) { vlong(10); } //@ tier=thorough
ENTRY(one_11) { one(11); } //@ cost=2
ENTRY(max_11) { maxed(11); }
ENTRY(long_11) { longs(11); } //@ cost=3
ENTRY(vlong_11) { vlong(11); } //@ tier=thorough
ENTRY(one_12) { one(12); } //@ cost=2
ENTRY(max_12) { maxed(12); }
ENTRY(long_12) { longs(12); } //@ cost=3
ENTRY(vlong_12) { vlong(12); } //@ tier=thorough
ENTRY(one_13) { one(13); } //@ cost=2
ENTRY(max_13) { maxed(13); }
ENTRY(long_13) { longs(13); } //@ cost=3
ENTRY(vlong_13) { vlong(13); } //@ tier=thorough
ENTRY(one_14) { one(14); } //@ cost=2
ENTRY(max_14) { maxed(14); }
ENTRY(long_14) { longs(14); } //@ cost=3
ENTRY(vlong_14) { vlong(14); } //@ tier=thorough
ENTRY(one_15) { one(15); } //@ cost=2
ENTRY(max_15) { maxed(15); }
ENTRY(long_15) { longs(15); } //@ cost=3
ENTRY(vlong_15) { vlong(15); } //@ tier=thorough
ENTRY(one_16) { one(16); } //@ cost=2
ENTRY(max_16) { maxed(16); }
ENTRY(long_16) { longs(16); } //@ cost=3
ENTRY(vlong_16) { vlong(16); } //@ tier=thorough
ENTRY(one_17) { one(17); } //@ cost=2
ENTRY(max_17) { maxed(17); }
ENTRY(long_17) { longs(17); } //@ cost=3
ENTRY(vlong_17) { vlong(17); } //@ tier=thorough
ENTRY(one_19) { one(19); } //@ cost=2
ENTRY(max_19) { maxed(19); }
ENTRY(long_19) { longs(19); } //@ cost=3
ENTRY(vlong_19) { vlong(19); } //@ tier=thorough
ENTRY(one_20) { one(20); } //@ cost=2
ENTRY(max_20) { maxed(20); }
ENTRY(long_20) { longs(20); } //@ cost=7 tmo=150 ttmo=900
ENTRY(vlong_20) { vlong(20); } //@ tier=thorough
ENTRY(one_21) { one(21); } //@ cost=2
ENTRY(max_21) { maxed(21); }
ENTRY(long_21) { longs(21); } //@ cost=7 tmo=150 ttmo=900
ENTRY(vlong_21) { vlong(21); } //@ tier=thorough
ENTRY(one_22) { one(22); } //@ cost=6 tmo=150 ttmo=900
ENTRY(max_22) { maxed(22); } //@ cost=6 tmo=150 ttmo=900
ENTRY(long_22) { longs(22); } //@ cost=7 tmo=150 ttmo=900
ENTRY(vlong_22) { vlong(22); } //@ tier=thorough
ENTRY(one_23) { one(23); } //@ cost=2
ENTRY(max_23) { maxed(23); }
ENTRY(long_23) { longs(23); } //@ cost=3
ENTRY(vlong_23) { vlong(23); } //@ tier=thorough
ENTRY(one_24) { one(24); } //@ cost=2
ENTRY(max_24) { maxed(24); }
ENTRY(long_24) { longs(24); } //@ cost=3
ENTRY(vlong_24) { vlong(24); } //@ tier=thorough
ENTRY(one_25) { one(25); } //@ cost=2
ENTRY(max_25) { maxed(25); }
ENTRY(long_25) { longs(25); } //@ cost=3
ENTRY(vlong_25) { vlong(25); } //@ tier=thorough
ENTRY(one_26) { one(26); } //@ cost=2
ENTRY(max_26) { maxed(26); }
ENTRY(long_26) { longs(26); } //@ cost=3
ENTRY(vlong_26) { vlong(26); } //@ tier=thorough
ENTRY(one_27) { one(27); } //@ cost=2
ENTRY(max_27) { maxed(27); }
ENTRY(long_27) { longs(27); } //@ cost=3
ENTRY(vlong_27) { vlong(27); } //@ tier=thorough
ENTRY(one_28) { one(28); } //@ cost=2
ENTRY(max_28) { maxed(28); }
ENTRY(long_28) { longs(28); } //@ cost=3
ENTRY(vlong_28) { vlong(28); } //@ tier=thorough
ENTRY(one_29) { one(29); } //@ cost=2
ENTRY(max_29) { maxed(29); }
ENTRY(long_29) { longs(29); } //@ cost=3
ENTRY(vlong_29) { vlong(29); } //@ tier=thorough
ENTRY(one_30) { one(30); } //@ cost=2
ENTRY(max_30) { maxed(30); }
ENTRY(long_30) { longs(30); } //@ cost=3
ENTRY(vlong_30) { vlong(30); } //@ tier=thorough
ENTRY(one_31) { one(31); } //@ cost=2
ENTRY(max_31) { maxed(31); }
ENTRY(long_31) { longs(31); } //@ cost=3
ENTRY(vlong_31) { vlong(31); } //@ tier=thorough
ENTRY(one_32) { one(32); } //@ cost=2
ENTRY(max_32) { maxed(32); }
ENTRY(long_32) { longs(32); } //@ cost=3
ENTRY(vlong_32) { vlong(32); } //@ tier=thorough
// all pairs of edits
static void pair(int lo, int hi) {
  static const int second[] = {0, 2, 11, 17, 21, 24, 28}; int a = p_range("op1", lo, hi), k = p_range("op2", 0, THOROUGH() ? OPS - 1 : 6), c = THOROUGH() ? k : second[k]; M m; int n = p_range("n", THOROUGH() ? 0 : 1, THOROUGH() ? 2 : 1); StringBuilder *b = build(m, n, p_range("mx", 0, 1) ? 4 : Int32Value::MaxValue);
  posMode = 1; step(b, m, a, true); posMode = THOROUGH() ? 1 : 2; step(b, m, c, true); vs_cover("pair");
}
ENTRY(pairs_0) { pair(0, 2); } //@ shards=3 cost=5 tmo=120 ttmo=900
ENTRY(pairs_1) { pair(3, 5); } //@ shards=3 cost=5 tmo=120 ttmo=900
ENTRY(pairs_2) { pair(6, 8); } //@ shards=3 cost=5 tmo=120 ttmo=900
ENTRY(pairs_3) { pair(9, 11); } //@ shards=3 cost=5 tmo=120 ttmo=900
ENTRY(pairs_4) { pair(12, 14); } //@ shards=3 cost=5 tmo=120 ttmo=900
ENTRY(pairs_5) { pair(15, 17); } //@ shards=3 cost=5 tmo=120 ttmo=900
ENTRY(pairs_6) { pair(18, 20); } //@ shards=3 cost=5 tmo=120 ttmo=900
ENTRY(pairs_7) { pair(21, 23); } //@ shards=3 cost=5 tmo=120 ttmo=900
ENTRY(pairs_8) { pair(24, 26); } //@ shards=3 cost=5 tmo=120 ttmo=900
ENTRY(pairs_9) { pair(27, 29); } //@ shards=3 cost=5 tmo=120 ttmo=900
ENTRY(pairs_10) { pair(30, 32); } //@ shards=3 cost=5 tmo=120 ttmo=900
ENTRY(construct) { // constructors from text
  Txt t = txt("t", 0, 3); int form = p_range("form", 0, 2); int s = 0, k = t.n, c = 0; if (form) { c = s_i32("cap"); vs_assume(c <= 200); } if (form == 2) { s = s_i32("s"); k = s_i32("k"); } StringBuilder *b = nullptr; int x = outcome([&] { b = form == 0 ? new StringBuilder(t.s) : form == 1 ? new StringBuilder(t.s, c) : new StringBuilder(t.s, s, k, c); });
  bool ok = c >= 0 && s >= 0 && k >= 0 && (int64_t)s + k <= t.n; if (!ok) { raised(x, -1); return; } vs_check(x == X_NONE, "constructs"); s = (int)vs_pick(s); k = (int)vs_pick(k); M m; m.n = 0; m.max = Int32Value::MaxValue; mapp(m, 0, t.c + s, k); same(b, m); vs_check(b->get_Capacity() >= c, "requested capacity"); step(b, m, 0, true); vs_cover("construct");
}
ENTRY(construct_null) { StringBuilder a((String *)nullptr), b((String *)nullptr, 5), c; M m; m.n = 0; m.max = Int32Value::MaxValue; same(&a, m); same(&b, m); same(&c, m); StringBuilder d(String::Empty); same(&d, m); step(&a, m, 2, true); vs_cover("null text"); }
ENTRY(nullops) { M m; StringBuilder *b = build(m, p_range("n", 0, 2), Int32Value::MaxValue); int p = p_range("p", 0, m.n), k = p_range("k", 0, 6); String *z = nullptr; Array *za = nullptr; Object *zo = nullptr; int x = outcome([&] { switch (k) { case 0: b->Append(z); break; case 1: b->Append(za); break; case 2: b->Append(zo); break; case 3: b->Insert(p, z); break; case 4: b->Insert(p, za); break; case 5: b->Insert(p, zo); break; case 6: b->Insert(p, z, 3); break; } }); vs_check(x == X_NONE, "null operand adds nothing"); same(b, m); vs_cover("null operand"); int y = outcome([&] { b->Replace(z, String::Empty); }); raised(y, -1); same(b, m); }
ENTRY(wrongtype) { M m; StringBuilder *b = build(m, p_range("n", 0, 2), Int32Value::MaxValue); Array *a = new Array(Int16Type, 2); Array *c = new Array(CharType, 2, 2); int k = p_range("k", 0, 3); vs_check(outcome([&] { if (k == 0) b->Append(a); else if (k == 1) b->Append(c); else if (k == 2) b->Insert(0, a); else b->Insert(0, c); }) != X_NONE, "array of another type or shape raises"); same(b, m); vs_cover("wrong type"); }
ENTRY(equality) { M m, q; StringBuilder *b = build(m, p_range("n", 0, 2), Int32Value::MaxValue), *d = build(q, p_range("n", 0, 2), Int32Value::MaxValue); bool e = m.n == q.n && eqChars(m.c, q.c, m.n); vs_check(b->Equals(d) == e && d->Equals(b) == e, "equal exactly when texts are equal"); vs_check(!b->Equals((StringBuilder *)nullptr) && b->Equals(b), "null and self"); vs_cover("equality"); }
// ---- huge: lengths far past every buffer and chunk size in the library
ENTRY(huge) { //@ shards=4 again=0 cost=2 steps=40000000
  int n = hugeLen("n"), op = p_range("op", 0, 6), chunk = p_range("chunk", 0, 2); chunk = chunk == 0 ? 1 : chunk == 1 ? 100 : 257; static Char c[8700]; Char p = s_char("p"), z = s_char("z"); for (int i = 0; i < n; i++) c[i] = i % 9 == 4 ? 'Q' : 'a' + i % 13; c[n - 1] = p; StringBuilder *b = new StringBuilder(); for (int i = 0; i < n; i += chunk) { int k = n - i < chunk ? n - i : chunk; if (chunk == 1) b->Append(c[i]); else b->Append(c + i, k); }
  auto is = [&](int m) { vs_check(b->get_Length() == m, "length"); if (b->get_Length() != m) vs_stop(); vs_check(eqChars(b->get_Buffer(), c, m), "exact text"); vs_check(b->get_Capacity() >= m && b->get_MaxCapacity() >= b->get_Capacity(), "length <= capacity <= maximum capacity"); vs_check(isText(b->ToString(), c, m), "whole text"); }; is(n); Char w[3] = {z, 'w', 0}; int h = n / 2, m = n;
  switch (op) {
  case 0: b->Insert(h, mkString(w, 2), 150); for (int i = n - 1; i >= h; i--) c[i + 300] = c[i]; for (int i = 0; i < 300; i++) c[h + i] = w[i % 2]; m = n + 300; break;
  case 1: b->Remove(h - 100, 200); for (int i = h + 100; i < n; i++) c[i - 200] = c[i]; m = n - 200; break;
  case 2: b->Replace((Char)'Q', z); for (int i = 0; i < n; i++) c[i] = vs_ite(c[i] == 'Q', z, c[i]); break;
  case 3: b->set_Length(h); m = h; break;
  case 4: b->set_Length(n + 200); for (int i = 0; i < 200; i++) c[n + i] = 0; m = n + 200; break;
  case 5: b->Append(z, 200); for (int i = 0; i < 200; i++) c[n + i] = z; m = n + 200; break;
  case 6: b->Clear(); vs_check(b->get_Length() == 0, "empty"); b->Append(z); c[0] = z; m = 1; break;
  }
  is(m); b->Append(w, 2); c[m] = w[0]; c[m + 1] = w[1]; is(m + 2); vs_cover("huge");
}
