// Ideal-sequence model of a StringBuilder and one symbolic editing step.
#pragma once
#include "vs.h"
struct M { int n; int max; Char c[760]; };
static const int OPS = 33;
static void mapp(M &m, int at, const Char *c, int k) { for (int i = m.n - 1; i >= at; i--) m.c[i + k] = m.c[i]; for (int i = 0; i < k; i++) m.c[at + i] = c[i]; m.n += k; }
static void mdel(M &m, int at, int k) { for (int i = at; i + k < m.n; i++) m.c[i] = m.c[i + k]; m.n -= k; }
static void same(StringBuilder *b, const M &m) {
  vs_check(b->get_Length() == m.n, "length"); if (b->get_Length() != m.n) return; vs_check(eqChars(b->get_Buffer(), m.c, m.n), "exact text"); vs_check(b->get_Buffer()[m.n] == 0, "terminated");
  vs_check(b->get_Capacity() >= m.n && b->get_MaxCapacity() >= b->get_Capacity() && b->get_MaxCapacity() == m.max, "length <= capacity <= maximum capacity");
}
// positions: every 32-bit value for short texts, values around both ends for long ones
static int posMode = 0; // 0: every 32-bit value; 1: -1..n+1; 2: 0..n
static int pos(const char *nm, int n) { if (posMode) return p_range(nm, posMode == 1 ? -1 : 0, posMode == 1 ? n + 1 : n); if (n <= 6) return s_i32(nm); static const int lo[] = {-2, -1, 0, 1, 2}; int k = p_range(nm, 0, 11); if (k < 5) return lo[k]; if (k == 10) return INT32_MIN; if (k == 11) return INT32_MAX; return n - 7 + k; }
static int cnt(const char *nm, int n) { return pos(nm, n); }
struct Txt { int n; Char c[8]; String *s; };
static Txt txt(const char *nm, int lo, int hi) { Txt t; t.n = p_range("len", lo, hi); for (int i = 0; i < t.n; i++) t.c[i] = s_char(nm); t.c[t.n] = 0; t.s = mkString(t.c, t.n); return t; }
static void raised(int x, int op) { vs_check(argerr(x) || ((op == 10 || (op >= 11 && op <= 16) || (op >= 25 && op <= 29)) && x == X_INDEX), "argument outside the text raises"); vs_cover("refused"); }
static int iv(int lo, int hi) { return p_range("v", lo, hi); }
static void step(StringBuilder *b, M &m, int op, bool small) {
  String *before = m.n <= 6 && !posMode ? b->ToString() : nullptr; Char was[8]; int wasN = m.n; if (before) { memcpy(was, m.c, sizeof(Char) * wasN); vs_check(isText(before, was, wasN), "text before the edit"); }
  int x = X_NONE; bool ok = true; int P = small ? 1 : 2, Q = posMode ? 1 : 0; StringBuilder *r = b; int room = m.max - m.n;
#define DO(e) x = outcome([&] { e; })
  switch (op) {
  case 0: { Char c = s_char("c"); DO(r = b->Append(c)); ok = room >= 1; if (ok) mapp(m, m.n, &c, 1); break; }
  case 1: { Char c = s_char("c"); int k = s_i32("rep"); vs_assume(k <= 5 || k > room); DO(r = b->Append(c, k)); ok = k >= 0 && k <= room; if (ok) { k = (int)vs_pick(k); for (int i = 0; i < k; i++) mapp(m, m.n, &c, 1); } break; }
  case 2: { Txt t = txt("t", Q, P); DO(r = b->Append(t.s)); ok = t.n <= room; if (ok) mapp(m, m.n, t.c, t.n); break; }
  case 3: { Txt t = txt("t", Q, P); int s = s_i32("s"), k = s_i32("k"); vs_assume(k >= 0 || s == 0); DO(r = b->Append(t.s, s, k)); if (k < 0) k = t.n; ok = s >= 0 && (int64_t)s + k <= t.n && k <= room; if (ok) { s = (int)vs_pick(s); k = (int)vs_pick(k); mapp(m, m.n, t.c + s, k); } break; }
  case 4: { Txt t = txt("t", Q, P); DO(r = b->Append(t.c, t.n)); ok = t.n <= room; if (ok) mapp(m, m.n, t.c, t.n); break; }
  case 5: { Txt t = txt("t", Q, P); Array *a = new Array(CharType, t.n); for (int i = 0; i < t.n; i++) *(Char *)a->Address(i) = t.c[i]; int form = p_range("form", 0, 1), s = 0, k = -1; if (form) { s = s_i32("s"); k = s_i32("k"); vs_assume(s <= 0 || k >= 0); } DO(r = form ? b->Append(a, s, k) : b->Append(a)); if (s < 0) s = 0; if (k < 0) k = t.n; if (k == 0 && x == X_NONE) { ok = true; break; } ok = (int64_t)s + k <= t.n && k <= room; if (ok) { s = (int)vs_pick(s); k = (int)vs_pick(k); mapp(m, m.n, t.c + s, k); } break; }
  case 6: { int k = p_range("obj", 0, 2); Object *o = nullptr; Txt t; t.n = 0; if (k == 1) { t = txt("t", Q, P); o = t.s; } if (k == 2) { o = new BooleanValue(true); t.n = 4; memcpy(t.c, L"True", 20); } DO(r = b->Append(o)); ok = t.n <= room; if (ok) mapp(m, m.n, t.c, t.n); break; }
  case 7: { DO(r = b->AppendLine()); ok = room >= 2; if (ok) mapp(m, m.n, L"\r\n", 2); break; }
  case 8: { bool z = p_range("null", 0, 1); Txt t; t.n = 0; t.s = nullptr; if (!z) t = txt("t", Q, P); DO(r = b->AppendLine(t.s)); ok = t.n + 2 <= room; if (ok) { mapp(m, m.n, t.c, t.n); mapp(m, m.n, L"\r\n", 2); } break; }
  case 9: { bool v = s_bool("v"); DO(r = b->Append(v)); int k = v ? 4 : 5; ok = k <= room; if (ok) mapp(m, m.n, v ? L"True" : L"False", k); break; }
  case 10: { // numbers
    int ty = p_range("type", 0, small ? 0 : 9); int v = ty & 1 ? iv(0, 11) : iv(-3, 11); Char t[8]; int k = 0; if (v < 0) t[k++] = '-'; int w = v < 0 ? -v : v; if (w > 9) t[k++] = '1'; t[k++] = '0' + w % 10; int form = p_range("form", 0, 1); int p = 0; if (form) { p = pos("p", m.n); }
#define NUM(T) { DO(r = form ? b->Insert(p, (T)v) : b->Append((T)v)); break; }
    switch (ty) { case 0: NUM(Int32) case 1: NUM(UInt32) case 2: NUM(Int64) case 3: NUM(UInt64) case 4: NUM(Int16) case 5: NUM(UInt16) case 6: NUM(SByte) case 7: NUM(Byte) case 8: NUM(Double) case 9: NUM(Single) }
    ok = k <= room && (!form || (p >= 0 && p <= m.n)); if (ok) { p = form ? (int)vs_pick(p) : m.n; mapp(m, p, t, k); } break; }
  case 11: { Txt t = txt("t", Q, P); int p = pos("p", m.n); DO(r = b->Insert(p, t.s)); ok = p >= 0 && p <= m.n && t.n <= room; if (ok) { p = (int)vs_pick(p); mapp(m, p, t.c, t.n); } break; }
  case 12: { Txt t = txt("t", Q, P); int p = pos("p", m.n), k = s_i32("rep"); vs_assume(k <= 3 || t.n > 0); vs_assume(k <= 3 || k > room); DO(r = b->Insert(p, t.s, k)); ok = p >= 0 && p <= m.n && k >= 0 && (int64_t)k * t.n <= room; if (ok) { p = (int)vs_pick(p); k = (int)vs_pick(k); for (int i = 0; i < k; i++) mapp(m, p, t.c, t.n); } break; }
  case 13: { Char c = s_char("c"); int p = pos("p", m.n); DO(r = b->Insert(p, c)); ok = p >= 0 && p <= m.n && room >= 1; if (ok) { p = (int)vs_pick(p); mapp(m, p, &c, 1); } break; }
  case 14: { Txt t = txt("t", Q, P); Array *a = new Array(CharType, t.n); for (int i = 0; i < t.n; i++) *(Char *)a->Address(i) = t.c[i]; int p = pos("p", m.n); int form = p_range("form", 0, 1), s = 0, k = -1; if (form) { s = s_i32("s"); k = s_i32("k"); vs_assume(s <= 0 || k >= 0); } DO(r = form ? b->Insert(p, a, s, k) : b->Insert(p, a)); if (s < 0) s = 0; if (k < 0) k = t.n; if (k == 0 && x == X_NONE) { ok = true; break; } ok = p >= 0 && p <= m.n && (int64_t)s + k <= t.n && k <= room; if (ok) { p = (int)vs_pick(p); s = (int)vs_pick(s); k = (int)vs_pick(k); mapp(m, p, t.c + s, k); } break; }
  case 15: { int k = p_range("obj", 0, 2); Object *o = nullptr; Txt t; t.n = 0; if (k == 1) { t = txt("t", Q, P); o = t.s; } if (k == 2) { o = new BooleanValue(false); t.n = 5; memcpy(t.c, L"False", 24); } int p = pos("p", m.n); DO(r = b->Insert(p, o)); ok = p >= 0 && p <= m.n && t.n <= room; if (ok) { p = (int)vs_pick(p); mapp(m, p, t.c, t.n); } break; }
  case 16: { bool v = s_bool("v"); int p = pos("p", m.n); DO(r = b->Insert(p, v)); int k = v ? 4 : 5; ok = p >= 0 && p <= m.n && k <= room; if (ok) { p = (int)vs_pick(p); mapp(m, p, v ? L"True" : L"False", k); } break; }
  case 17: case 18: { int s = pos("s", m.n), k = cnt("k", m.n); DO(r = b->Remove(s, k)); ok = s >= 0 && k >= 0 && (int64_t)s + k <= m.n; if (ok) { s = (int)vs_pick(s); k = (int)vs_pick(k); mdel(m, s, k); } break; }
  case 19: { Char p = s_char("old"), q = s_char("new"); if (m.n > 6) vs_assume(p < 0x100); DO(r = b->Replace(p, q)); for (int i = 0; i < m.n; i++) m.c[i] = (Char)vs_ite(m.c[i] == p, q, m.c[i]); break; }
  case 20: { Char p = s_char("old"), q = s_char("new"); if (m.n > 6) vs_assume(p < 0x100); int s = pos("s", m.n), k = cnt("k", m.n); DO(r = b->Replace(p, q, s, k)); ok = s >= 0 && k >= 0 && (int64_t)s + k <= m.n; if (ok) for (int i = 0; i < m.n; i++) m.c[i] = (Char)vs_ite((m.c[i] == p) & (i >= s) & (i < s + k), q, m.c[i]); break; }
  case 21: case 22: { // replace text, whole or range
    Txt o = txt("o", Q, P); if (m.n > 6 && o.n) vs_assume(o.c[0] < 0x100); Txt w = txt("w", 0, P); int s = 0, k = m.n; bool z = w.n == 0 ? p_range("null", 0, 1) : 0; if (op == 22) { s = pos("s", m.n); k = cnt("k", m.n); } DO(r = op == 21 ? b->Replace(o.s, z ? nullptr : w.s) : b->Replace(o.s, z ? nullptr : w.s, s, k));
    ok = o.n > 0 && s >= 0 && k >= 0 && (int64_t)s + k <= m.n; if (!ok) break; s = (int)vs_pick(s); k = (int)vs_pick(k); int hits = 0, e = s + k; M old = m;
    for (int i = s; i + o.n <= e;) { bool q = true; for (int j = 0; j < o.n; j++) q = q & (m.c[i + j] == o.c[j]); if (q) { mdel(m, i, o.n); mapp(m, i, w.c, w.n); i += w.n; e += w.n - o.n; hits++; } else i++; }
    if (m.n > m.max) { m = old; ok = false; } if (hits) vs_cover("replaced text"); break; }
  case 23: { DO(r = b->Clear()); m.n = 0; break; }
  case 24: { int k = s_i32("length"); vs_assume(k <= m.n + 3 || k > 0x7ffffff0 || k > m.max); if (m.n > 6) vs_assume(k < 1 || k >= m.n - 2); vs_assume(k <= m.max || m.max < 1000 || k > m.max); if (m.max > 1000 && k > m.n + 3) vs_stop(); DO(b->set_Length(k)); ok = k >= 0 && k <= m.max; if (ok) { k = (int)vs_pick(k); for (int i = m.n; i < k; i++) m.c[i] = 0; m.n = k; } break; }
  case 25: { Char c = s_char("c"); int p = pos("p", m.n); DO(b->set_Chars(p, c)); ok = p >= 0 && p < m.n; if (ok) { p = (int)vs_pick(p); m.c[p] = c; } break; }
  case 26: { int p = pos("p", m.n); Char c = 0; DO(c = b->get_Chars(p)); ok = p >= 0 && p < m.n; if (ok) { p = (int)vs_pick(p); vs_check(c == m.c[p] && *b->Address(p) == m.c[p], "character read"); } break; }
  case 27: { int s = pos("s", m.n), k = cnt("k", m.n); String *t = nullptr; DO(t = b->ToString(s, k)); ok = s >= 0 && k >= 0 && (int64_t)s + k <= m.n; if (ok && x == X_NONE) { s = (int)vs_pick(s); k = (int)vs_pick(k); vs_check(isText(t, m.c + s, k), "requested part"); vs_cover("part"); } break; }
  case 28: { String *t = b->ToString(); vs_check(isText(t, m.c, m.n), "whole text"); vs_check(t->get_Buffer() != b->get_Buffer(), "separate text"); break; }
  case 29: { int z = p_range("size", 0, m.n > 6 ? 1 : m.n + 2); if (m.n > 6) z = m.n + z; Char *w = (Char *)malloc(sizeof(Char) * (z ? z : 1)); int k = -5; DO(k = b->FormatString(w, z)); ok = z > m.n; if (ok) vs_check(k == m.n && eqChars(w, m.c, m.n) && w[m.n] == 0, "formatted text"); free(w); break; }
  case 30: { int k = s_i32("capacity"); if (m.max > 1000) vs_assume(k <= m.n + 3 || k == 0x7fffffff); int old = b->get_Capacity(); if (m.max > 1000 && k > m.n + 3) vs_stop(); if (m.n > 6) vs_assume(k < 1 || k > m.n - 2); int c = 0; DO(c = b->EnsureCapacity(k)); ok = k >= 0 && k <= m.max; if (ok) vs_check(x == X_NONE && c >= k && c >= old && c == b->get_Capacity(), "room for the request"); break; }
  case 31: { int k = s_i32("capacity"); if (m.max > 1000 && k > m.n + 3) vs_stop(); if (m.n > 6) vs_assume(k < 1 || k > m.n - 2); int old = b->get_Capacity(); DO(b->set_Capacity(k)); ok = k >= m.n && k <= m.max; if (ok && x != X_NONE && k < old) { vs_check(x == X_RANGE, "shrinking may be refused"); same(b, m); return; } if (ok) vs_check(b->get_Capacity() >= k, "capacity"); break; }
  case 32: { Txt t = txt("t", Q, P); if (m.n > 6 && t.n) vs_assume(t.c[0] < 0x100); int s = 0, k = m.n; Int32 c = t.n ? b->CountSubStrings(t.s, s, k) : 0; int e = 0; if (t.n) for (int i = 0; i + t.n <= m.n;) { bool q = true; for (int j = 0; j < t.n; j++) q = q & (m.c[i + j] == t.c[j]); if (q) { e++; i += t.n; } else i++; } vs_check(c == e, "matches counted"); break; }
  }
  if (ok) { vs_check(x == X_NONE, "a valid edit succeeds"); vs_check(r == b, "returns the builder"); vs_cover("edited"); } else raised(x, op);
  same(b, m); if (before) vs_check(isText(before, was, wasN), "text taken before the edit stays"); if (m.n <= 6 && !posMode) vs_check(isText(b->ToString(), m.c, m.n), "text after the edit");
}
static StringBuilder *build(M &m, int n, int max) { // a builder holding n arbitrary characters
  m.n = n; m.max = max; for (int i = 0; i < n; i++) m.c[i] = i < 3 || i >= n - 3 ? s_char("b") : 0x100 + i; m.c[n] = 0; StringBuilder *b = max == Int32Value::MaxValue ? new StringBuilder() : new StringBuilder(0, max); b->Append(m.c, n); return b;
}
