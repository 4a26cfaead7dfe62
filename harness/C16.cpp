// C16 string editing
#include "vs.h"
//@bound all texts of 0..4 characters (thorough 0..5; trimming the default white-space set: 0..3), second operands of 0..2 (thorough 0..3), all 32-bit positions and counts; characters any code 0..0x10ffff; pad widths up to 8 or negative, and every width up to 140 (thorough 300); texts of 17, 33 and 130 characters (thorough 13 lengths up to 140) with three arbitrary characters and all 32-bit positions (around both ends above 20); up to 9 joined texts; arrays of 0..3 strings/objects/nulls; lengths 260, 600, 1030 and 4100 (thorough 17 lengths up to 8200) with one or two arbitrary characters and positions at the ends and the middle
//@assume "C" locale case mapping (modelled)
struct T { int n; Char c[360]; String *s; };
static T mk(const char *nm, int lo, int N) { T t; t.n = p_range("len", lo, N); for (int i = 0; i < t.n; i++) t.c[i] = s_char(nm); t.c[t.n] = 0; t.s = mkString(t.c, t.n); return t; }
static int NT() { return THOROUGH() ? 5 : 4; }
static int NP() { return THOROUGH() ? 3 : 2; }
static void same(const T &t) { vs_check(isText(t.s, t.c, t.n), "operand unchanged"); }
static void app(T &d, const Char *c, int n) { for (int i = 0; i < n; i++) d.c[d.n++] = c[i]; d.c[d.n] = 0; }
static T empty() { T e; e.n = 0; e.c[0] = 0; e.s = nullptr; return e; }
static void result(String *r, const T &e) { vs_check(isText(r, e.c, e.n), "exactly the specified text"); }
ENTRY(substring) { //@ shards=5 tshards=6
  T t = mk("t", 0, NT()); int form = p_range("form", 0, 1); int i = s_i32("i"), n = -1; if (form) { n = s_i32("n"); } String *r = nullptr; int x = outcome([&] { r = form ? t.s->Substring(i, n) : t.s->Substring(i); });
  int64_t L = n < 0 ? (int64_t)t.n - i : n; if (i < 0 || i > t.n || i + L > t.n) { vs_check(argerr(x), "positions outside raise"); vs_cover("sub refused"); } else { vs_check(x == X_NONE, "inside"); i = (int)vs_pick(i); L = (int64_t)vs_pick(L); T e = empty(); app(e, t.c + i, (int)L); result(r, e); vs_cover("sub"); } same(t);
}
ENTRY(tochars) { //@ shards=5 tshards=6
  T t = mk("t", 0, NT()); int i = s_i32("i"), n = s_i32("n"); Array *r = nullptr; int x = outcome([&] { r = t.s->ToCharArray(i, n); }); int64_t L = n < 0 ? (int64_t)t.n - i : n;
  if (i < 0 || i > t.n || i + L > t.n) { vs_check(argerr(x), "positions outside raise an argument error"); } else { vs_check(x == X_NONE && r->get_Length() == L && r->GetElementType() == CharType, "length and type"); i = (int)vs_pick(i); L = (int64_t)vs_pick(L); bool ok = true; for (int k = 0; k < L; k++) ok = ok & (*(Char *)r->Address(k) == t.c[i + k]); vs_check(ok, "the characters"); vs_cover("chars"); } same(t);
}
ENTRY(insert) { //@ shards=5 tshards=6
  T t = mk("t", 0, NT()), p = mk("p", 0, NP()); int i = s_i32("i"); String *r = nullptr; int x = outcome([&] { r = t.s->Insert(i, p.s); }); if (i < 0 || i > t.n) { vs_check(argerr(x), "position outside raises"); vs_cover("insert refused"); } else { vs_check(x == X_NONE, "inside"); i = (int)vs_pick(i); T e = empty(); app(e, t.c, i); app(e, p.c, p.n); app(e, t.c + i, t.n - i); result(r, e); vs_cover("insert"); } same(t); same(p);
}
ENTRY(removes) { //@ shards=5 tshards=6
  T t = mk("t", 0, NT()); int form = p_range("form", 0, 1); int i = s_i32("i"), n = -1; if (form) { n = s_i32("n"); } String *r = nullptr; int x = outcome([&] { r = form ? t.s->Remove(i, n) : t.s->Remove(i); }); int64_t L = n < 0 ? (int64_t)t.n - i : n;
  if (i < 0 || i > t.n || i + L > t.n) { vs_check(argerr(x), "positions outside raise"); vs_cover("remove refused"); } else { vs_check(x == X_NONE, "inside"); i = (int)vs_pick(i); L = (int64_t)vs_pick(L); T e = empty(); app(e, t.c, i); app(e, t.c + i + L, t.n - i - (int)L); result(r, e); vs_cover("remove"); } same(t);
}
ENTRY(replace_char) { T t = mk("t", 0, NT()); Char a = s_char("a"), b = s_char("b"); String *r = t.s->Replace(a, b); T e = t; for (int k = 0; k < t.n; k++) e.c[k] = (Char)vs_ite(t.c[k] == a, b, t.c[k]); result(r, e); same(t); vs_cover("replace char"); } //@ twice=1
ENTRY(replace_str) { //@ shards=5 tshards=6 cost=3
  T t = mk("t", 0, NT()), o = mk("o", 0, NP()), w = mk("w", 0, NP()); bool nul = w.n == 0 ? p_range("null", 0, 1) : false; String *r = nullptr; int x = outcome([&] { r = t.s->Replace(o.s, nul ? nullptr : w.s); }); same(t); same(o); same(w);
  if (o.n == 0) { vs_check(argerr(x), "empty search text raises"); vs_cover("replace refused"); return; } vs_check(x == X_NONE, "replaces"); T e = empty();
  for (int i = 0; i < t.n;) { bool m = i + o.n <= t.n; if (m) { bool q = true; for (int k = 0; k < o.n; k++) q = q & (t.c[i + k] == o.c[k]); m = q; } if (m) { app(e, w.c, w.n); i += o.n; } else { app(e, t.c + i, 1); i++; } } result(r, e); vs_cover("replace");
}
static const Char WS[] = {9, 0xA, 0xB, 0xC, 0xD, 0x20, 0xA0, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2009, 0x200A, 0x200B, 0x3000, 0xFEFF};
static void trim(int which, bool custom) { // 0 both 1 start 2 end
  T p = custom ? mk("p", 0, NP()) : empty(), t = mk("t", 0, !custom ? 3 : p.n ? NT() : 2); Array *a = nullptr; if (custom) { a = new Array(CharType, p.n); for (int i = 0; i < p.n; i++) *(Char *)a->Address(i) = p.c[i]; }
  String *r = which == 0 ? (custom ? t.s->Trim(a) : t.s->Trim()) : which == 1 ? t.s->TrimStart(a) : t.s->TrimEnd(a); bool w[8]; for (int i = 0; i < t.n; i++) { bool m = false; if (p.n) for (int k = 0; k < p.n; k++) m = m | (t.c[i] == p.c[k]); else for (unsigned k = 0; k < sizeof(WS) / sizeof(*WS); k++) m = m | (t.c[i] == WS[k]); w[i] = m; }
  int lo = 0, hi = t.n; if (which != 2) while (lo < hi && w[lo]) lo++; if (which != 1) while (hi > lo && w[hi - 1]) hi--; T e = empty(); app(e, t.c + lo, hi - lo); result(r, e); same(t); vs_cover("trim");
}
ENTRY(trim_ws) { trim(0, false); } //@ shards=3 cost=3
ENTRY(trim_ws_s) { trim(1, false); } //@ shards=3 cost=2
ENTRY(trim_ws_e) { trim(2, false); } //@ shards=3 cost=2
ENTRY(trim_set) { trim(0, true); } //@ shards=3 tshards=4
ENTRY(trim_set_s) { trim(1, true); } //@ shards=3 tshards=4
ENTRY(trim_set_e) { trim(2, true); } //@ shards=3 tshards=4
ENTRY(pad) { //@ twice=1
  T t = mk("t", 0, NT()); int left = p_range("left", 0, 2); int w = s_i32("w"); vs_assume(w <= 8); Char c = s_char("c"); String *r = nullptr; int x = outcome([&] { r = left == 0 ? t.s->PadRight(w, c) : left == 1 ? t.s->PadLeft(w, c) : t.s->PadLeft(w); }); if (left == 2) c = ' '; same(t);
  if (w < 0) { vs_check(argerr(x), "negative width raises"); vs_cover("pad refused"); return; } vs_check(x == X_NONE, "pads"); w = (int)vs_pick(w); T e = empty(); if (!left) app(e, t.c, t.n); for (int k = t.n; k < w; k++) app(e, &c, 1); if (left) app(e, t.c, t.n); result(r, e); vs_cover("pad");
}
ENTRY(casing) { T t = mk("t", 0, NT()); T u = t, l = t; for (int i = 0; i < t.n; i++) { u.c[i] = t.c[i] - 32 * ((t.c[i] >= 'a') & (t.c[i] <= 'z')); l.c[i] = t.c[i] + 32 * ((t.c[i] >= 'A') & (t.c[i] <= 'Z')); } int k = p_range("k", 0, 3); String *r = k == 0 ? t.s->ToUpper() : k == 1 ? t.s->ToLower() : k == 2 ? t.s->ToUpperInvariant() : t.s->ToLowerInvariant(); result(r, k % 2 ? l : u); same(t); vs_cover("case"); } //@ twice=1
ENTRY(copies) { T t = mk("t", 0, NT()); String *r = String::Copy(t.s); result(r, t); vs_check(r != t.s && r->get_Buffer() != t.s->get_Buffer(), "a separate copy"); vs_check(isText(t.s->ToString(), t.c, t.n), "ToString"); Char w[8]; int z = p_range("size", 0, NT() + 2); int n = 0; int x = outcome([&] { n = t.s->FormatString(w, z); }); if (z > t.n) { vs_check(x == X_NONE && n == t.n && eqChars(w, t.c, t.n + 1), "formatted"); vs_cover("fmt"); } else vs_check(x == X_INDEX, "too small buffer raises"); same(t); vs_check(outcome([&] { String::Copy(nullptr); }) == X_NULL, "null raises"); } //@ twice=1
// operands of Concat/Join: null, string, boxed Boolean
static Object *operand(T &e) { int k = p_range("kind", 0, 2); if (k == 0) return nullptr; if (k == 1) { T p = mk("o", 0, 2); app(e, p.c, p.n); return p.s; } bool v = s_bool("v"); if (v) app(e, L"True", 4); else app(e, L"False", 5); return new BooleanValue(v); }
ENTRY(concat) { //@ cost=2
  int n = p_range("n", 1, THOROUGH() ? 4 : 3); T e = empty(); Object *o[7] = {}; for (int i = 0; i < n; i++) o[i] = operand(e); String *r = n == 1 ? String::Concat(o[0]) : n == 2 ? String::Concat(o[0], o[1]) : n == 3 ? String::Concat(o[0], o[1], o[2]) : String::Concat(o[0], o[1], o[2], o[3]); result(r, e); vs_cover("concat");
}
ENTRY(concat7) { T e = empty(); Object *o[7]; int at = p_range("null", -1, 6); for (int i = 0; i < 7; i++) { if (i == at) { o[i] = nullptr; continue; } Char c = s_char("c"); app(e, &c, 1); o[i] = mkString(&c, 1); } result(String::Concat(o[0], o[1], o[2], o[3], o[4], o[5], o[6]), e); vs_cover("seven"); } //@ twice=1
ENTRY(concat_array) { int n = p_range("n", 0, THOROUGH() ? 3 : 2); bool str = p_range("str", 0, 1); T e = empty(); Array *a = new Array(str ? StringType : ObjectType, n); for (int i = 0; i < n; i++) { Object *o; if (str) { T p = mk("o", 0, 2); app(e, p.c, p.n); o = p.s; } else o = operand(e); *(Object **)a->Address(i) = o; } result(String::Concat(a), e); vs_cover("concat array"); vs_check(outcome([&] { String::Concat((Array *)nullptr); }) == X_NULL, "null array"); } //@ twice=1
static void join(bool chr) {
  int n = p_range("n", 0, THOROUGH() ? 3 : 2); T sep = chr ? mk("sep", 1, 1) : mk("sep", 0, 2); Array *a = new Array(StringType, n); T p[3]; for (int i = 0; i < n; i++) { p[i] = mk("o", 0, 1); *(Object **)a->Address(i) = p[i].s; } int form = p_range("form", 0, 2); int s = 0, c = -1; if (form) { s = s_i32("start"); } if (form == 2) c = s_i32("count"); String *r = nullptr;
  int x = outcome([&] { if (chr) r = form == 0 ? String::Join(sep.c[0], a) : form == 1 ? String::Join(sep.c[0], a, s) : String::Join(sep.c[0], a, s, c); else r = form == 0 ? String::Join(sep.s, a) : form == 1 ? String::Join(sep.s, a, s) : String::Join(sep.s, a, s, c); });
  if (n == 0) { if (x == X_NONE) vs_check(r->get_Length() == 0, "nothing to join"); vs_cover("join none"); return; } int64_t C = c < 0 ? (int64_t)n - s : c; if (s < 0 || s > n || s + C > n) { vs_check(argerr(x), "range outside raises"); vs_cover("join refused"); return; }
  vs_check(x == X_NONE, "joins"); s = (int)vs_pick(s); C = (int64_t)vs_pick(C); T e = empty(); for (int i = 0; i < C; i++) { if (i) app(e, sep.c, sep.n); app(e, p[s + i].c, p[s + i].n); } result(r, e); vs_cover("join");
}
ENTRY(join_char) { join(true); } //@ shards=3 twice=1
ENTRY(join_str) { join(false); } //@ shards=3 cost=2
ENTRY(join_null) { int k = p_range("k", 0, 1); vs_check(outcome([&] { if (k) String::Join((Char)',', nullptr); else String::Join((String *)nullptr, (Array *)nullptr); }) == X_NULL, "null values raise"); Array *a = new Array(ObjectType, 2); T e = empty(); *(Object **)a->Address(0) = nullptr; Char c = s_char("c"); *(Object **)a->Address(1) = mkString(&c, 1); app(e, &c, 1); result(String::Join((String *)nullptr, a), e); vs_cover("join null"); } //@ twice=1
ENTRY(copyto) { //@ shards=5 tshards=6
  T t = mk("t", 0, NT()); int m = p_range("m", 0, NT()); Array *d = new Array(CharType, m); Char o[8]; for (int i = 0; i < m; i++) *(Char *)d->Address(i) = o[i] = s_char("d"); int si = s_i32("si"), di = s_i32("di"), n = s_i32("n"); int x = outcome([&] { t.s->CopyTo(si, d, di, n); }); same(t);
  bool ok = n >= 0 && si >= 0 && di >= 0 && (int64_t)si + n <= t.n && (int64_t)di + n <= m; vs_check(ok ? x == X_NONE : argerr(x), "exactly the ranges that fit are accepted"); bool g = true; for (int i = 0; i < m; i++) { uint64_t e = o[i]; if (ok) for (int j = 0; j < t.n; j++) e = vs_ite((i >= di) & (i < di + n) & (j == si + i - di), t.c[j], e); g = g & (*(Char *)d->Address(i) == (Char)e); } vs_check(g, "exactly the range is copied"); if (ok) vs_cover("copied"); else vs_cover("copy refused");
}
ENTRY(blank) { T t = mk("t", 0, 3); bool ws = true; for (int i = 0; i < t.n; i++) ws = ws & (((t.c[i] >= 9) & (t.c[i] <= 13)) | (t.c[i] == 32)); vs_check(String::IsNullOrEmpty(t.s) == (t.n == 0), "empty"); vs_check(String::IsNullOrWhiteSpace(t.s) == ws, "white space"); vs_check(String::IsNullOrEmpty(nullptr) && String::IsNullOrWhiteSpace(nullptr), "null"); vs_cover("blank"); } //@ twice=1
ENTRY(nulls) { T t = mk("t", 0, 2); int i = s_i32("i"); vs_check(argerr(outcome([&] { t.s->Insert(i, nullptr); })), "insert null raises"); vs_check(argerr(outcome([&] { t.s->Replace((String *)nullptr, t.s); })), "replace null raises"); vs_check(argerr(outcome([&] { t.s->CopyTo(0, nullptr, 0, 0); })), "copy to null raises"); Array *b = new Array(Int64Type, 2); vs_check(outcome([&] { t.s->CopyTo(0, b, 0, 1); }) != X_NONE, "copy to another type raises"); vs_check(outcome([&] { t.s->Trim(b); }) != X_NONE, "trim set of another type raises"); same(t); vs_cover("null"); } //@ twice=1
// ---- longer texts: distinct fixed characters around a few arbitrary ones; crosses the sizes and buffers the operations use inside
static T mkl(const char *nm, int n) { T t; t.n = n; for (int i = 0; i < n; i++) t.c[i] = i == 0 || i == n / 2 || i == n - 1 ? s_char(nm) : (Char)(0x3041 + i); t.c[n] = 0; t.s = mkString(t.c, n); return t; }
static int LN() { static const int q[] = {17, 33, 130}, th[] = {9, 15, 16, 17, 31, 32, 33, 65, 127, 128, 129, 130, 140}; return THOROUGH() ? th[p_range("n", 0, 12)] : q[p_range("n", 0, 2)]; }
// any 32-bit position for texts up to 20 characters; near the ends, the middle and far outside for longer ones
static int lpos(const char *nm, int n) { if (n <= 20) return s_i32(nm); static const int d[] = {INT32_MIN, -1, 0, 1, 2}; int k = p_range(nm, 0, 12); return k < 5 ? d[k] : k == 5 ? n / 2 : k == 6 ? INT32_MAX : k == 7 ? n / 2 + 1 : n - 11 + k; }
ENTRY(long_sub) { //@ shards=5 cost=2 tmo=100
  T t = mkl("t", LN()); int op = p_range("op", 0, 2); int i = lpos("i", t.n), n = p_range("form", 0, 1) ? lpos("k", t.n) : -1; String *r = nullptr; Array *a = nullptr; int x = outcome([&] { if (op == 0) r = t.s->Substring(i, n); else if (op == 1) r = t.s->Remove(i, n); else a = t.s->ToCharArray(i, n); });
  int64_t L = n < 0 ? (int64_t)t.n - i : n; if (i < 0 || i > t.n || i + L > t.n) { vs_check(argerr(x), "positions outside raise"); vs_cover("long refused"); return; } vs_check(x == X_NONE, "inside"); i = (int)vs_pick(i); L = (int64_t)vs_pick(L); T e = empty();
  if (op == 1) { app(e, t.c, i); app(e, t.c + i + L, t.n - i - (int)L); } else app(e, t.c + i, (int)L); if (op < 2) result(r, e); else { bool ok = a->get_Length() == L; vs_check(ok, "length"); for (int k = 0; k < L; k++) ok = ok & (*(Char *)a->Address(k) == e.c[k]); vs_check(ok, "the characters"); } same(t); vs_cover("long part");
}
ENTRY(long_insert) { //@ shards=3
  T t = mkl("t", LN()), p = mkl("p", p_range("pn", 0, 1) ? 20 : 1); int i = lpos("i", t.n); String *r = nullptr; int x = outcome([&] { r = t.s->Insert(i, p.s); }); if (i < 0 || i > t.n) { vs_check(argerr(x), "position outside raises"); return; } vs_check(x == X_NONE, "inside"); i = (int)vs_pick(i); T e = empty(); app(e, t.c, i); app(e, p.c, p.n); app(e, t.c + i, t.n - i); result(r, e); same(t); same(p); vs_cover("long insert");
}
ENTRY(long_pad) { // every width up to 140 (thorough 300)
  T t = mkl("t", p_range("n", 0, 6) * 4 + 1); int left = p_range("left", 0, 1); int w = (int)vs_range("w", 0, THOROUGH() ? 300 : 140); Char c = s_char("c"); w = (int)vs_pick(w); String *r = left ? t.s->PadLeft(w, c) : t.s->PadRight(w, c); T e = empty(); if (!left) app(e, t.c, t.n); for (int k = t.n; k < w; k++) app(e, &c, 1); if (left) app(e, t.c, t.n); result(r, e); same(t); vs_cover("long pad");
}
ENTRY(long_case) { T t = mkl("t", LN()); for (int i = 0; i < t.n; i++) if (i % 3 && i != t.n / 2 && i != t.n - 1) t.c[i] = t.s->get_Buffer()[i] = (i % 2 ? 'a' : 'A') + i % 26; T u = t, l = t; for (int i = 0; i < t.n; i++) { u.c[i] = t.c[i] - 32 * ((t.c[i] >= 'a') & (t.c[i] <= 'z')); l.c[i] = t.c[i] + 32 * ((t.c[i] >= 'A') & (t.c[i] <= 'Z')); } int k = p_range("k", 0, 1); result(k ? t.s->ToLower() : t.s->ToUpper(), k ? l : u); same(t); vs_cover("long case"); } //@ twice=1
ENTRY(long_trim) { // a text of blanks and letters: 0..19 blanks before, 1..2 characters, 0..19 blanks after
  int a = p_range("a", 0, 19), b = p_range("b", 0, 19), k = p_range("k", 0, 3), custom = p_range("custom", 0, 1); Char z = custom ? s_char("z") : (Char)WS[(a + b) % 21]; T t; t.n = 0; for (int i = 0; i < a; i++) app(t, &z, 1); Char m = s_char("m"); vs_assume(m != z); if (!custom) vs_assume(m > 0x3000 && m != 0xfeff); app(t, &m, 1); if (a % 2) { app(t, &z, 1); app(t, &m, 1); } int end = t.n; for (int i = 0; i < b; i++) app(t, &z, 1); t.s = mkString(t.c, t.n); Array *set = nullptr; if (custom) { set = new Array(CharType, 4); for (int i = 0; i < 4; i++) *(Char *)set->Address(i) = z; }
  String *r = k == 0 && !custom ? t.s->Trim() : k <= 1 ? t.s->Trim(set) : k == 2 ? t.s->TrimStart(set) : t.s->TrimEnd(set); int lo = k == 3 ? 0 : a, hi = k == 2 ? t.n : end; T e = empty(); app(e, t.c + lo, hi - lo); result(r, e); same(t); vs_cover("long trim");
}
ENTRY(long_replace) { // matches far apart, at both ends and adjacent
  T t; t.n = 0; int gap = p_range("gap", 0, THOROUGH() ? 70 : 20), hits = p_range("hits", 1, 5); T o = mkl("o", p_range("on", 1, 3)), w = mkl("w", p_range("wn", 0, 1) * p_range("wl", 1, 5)); for (int k = 0; k < o.n; k++) vs_assume(o.c[k] != 'q'); for (int h = 0; h < hits; h++) { app(t, o.c, o.n); for (int i = 0; i < gap; i++) app(t, L"q", 1); } t.s = mkString(t.c, t.n); String *r = t.s->Replace(o.s, w.s); T e = empty(); 
  for (int h = 0; h < hits; h++) { app(e, w.c, w.n); for (int i = 0; i < gap; i++) app(e, L"q", 1); } result(r, e); same(t); vs_cover("long replace");
}
ENTRY(long_concat) { int n = p_range("n", 1, 7); T e = empty(); Object *o[7] = {}; for (int i = 0; i < n; i++) { T p = mkl("o", (i * 5 + n) % 9 * 5); app(e, p.c, p.n); o[i] = p.s; } result(n == 1 ? String::Concat(o[0]) : n == 2 ? String::Concat(o[0], o[1]) : n == 3 ? String::Concat(o[0], o[1], o[2]) : n == 4 ? String::Concat(o[0], o[1], o[2], o[3]) : n == 5 ? String::Concat(o[0], o[1], o[2], o[3], o[4]) : n == 6 ? String::Concat(o[0], o[1], o[2], o[3], o[4], o[5]) : String::Concat(o[0], o[1], o[2], o[3], o[4], o[5], o[6]), e); Array *a = new Array(StringType, n); for (int i = 0; i < n; i++) *(Object **)a->Address(i) = o[i]; result(String::Concat(a), e); vs_cover("long concat"); } //@ twice=1
ENTRY(long_join) { // 3..9 texts, every start and count that fits
  int n = p_range("n", 3, 9), chr = p_range("chr", 0, 1), obj = p_range("obj", 0, 1); T sep = chr ? mk("sep", 1, 1) : mk("sep", 0, 2); Array *a = new Array(obj ? ObjectType : StringType, n); T p[9]; for (int i = 0; i < n; i++) { p[i] = mkl("o", i % 3 ? i : 40); *(Object **)a->Address(i) = p[i].s; } int s = p_range("s", 0, n), c = p_range("c", -1, n - s); String *r = chr ? String::Join(sep.c[0], a, s, c) : String::Join(sep.s, a, s, c); if (c < 0) c = n - s; T e = empty(); for (int i = 0; i < c; i++) { if (i) app(e, sep.c, sep.n); app(e, p[s + i].c, p[s + i].n); } result(r, e); vs_cover("long join");
}
ENTRY(long_copyto) { //@ shards=5 tmo=100
  T t = mkl("t", LN()); int m = p_range("m", 0, 1) * 36 + 12; Array *d = new Array(CharType, m); Char o[48]; for (int i = 0; i < m; i++) *(Char *)d->Address(i) = o[i] = (Char)(7 + i); int si = lpos("si", t.n), di = p_range("di", 0, 4); di = di == 4 ? m / 2 : di == 3 ? m + 1 : di == 2 ? m - 1 : di - 1; int n = s_i32("k"); int x = outcome([&] { t.s->CopyTo(si, d, di, n); }); bool ok = n >= 0 && si >= 0 && di >= 0 && (int64_t)si + n <= t.n && (int64_t)di + n <= m; vs_check(ok ? x == X_NONE : argerr(x), "exactly the ranges that fit are accepted"); if (ok) { si = (int)vs_pick(si); n = (int)vs_pick(n); for (int i = 0; i < n; i++) o[di + i] = t.c[si + i]; } bool g = true; for (int i = 0; i < m; i++) g = g & (*(Char *)d->Address(i) == o[i]); vs_check(g, "exactly the range is copied"); vs_cover("long copy");
}
// ---- huge: lengths far past every buffer and chunk size in the library
static struct { int n; Char c[9400]; } hg; // expected text
static void hc(Char c) { hg.c[hg.n++] = c; hg.c[hg.n] = 0; }
static void hs(const Char *c, int n) { for (int i = 0; i < n; i++) hc(c[i]); }
ENTRY(huge) { //@ shards=6 again=0 cost=2 steps=40000000
  int n = hugeLen("n"), op = p_range("op", 0, 13), k = p_range("at", 0, 2), at = k == 0 ? 0 : k == 1 ? n / 2 : n - 1; static Char c[8300]; for (int i = 0; i < n; i++) c[i] = i % 9 == 4 ? 'Q' : 'a' + i % 13; Char p = s_char("p"), z = s_char("z"); c[at] = p; c[n] = 0; String *s = mkString(c, n), *r = nullptr; Char w[2] = {z, 'w'}; String *q = mkString(w, 2); hg.n = 0; hg.c[0] = 0; Array *arr = nullptr;
  switch (op) {
  case 0: r = s->Insert(at, q); hs(c, at); hs(w, 2); hs(c + at, n - at); break;
  case 1: r = s->Remove(at, 1); hs(c, at); hs(c + at + 1, n - at - 1); break;
  case 2: r = s->Replace((Char)'Q', z); for (int i = 0; i < n; i++) hc(vs_ite(c[i] == 'Q', z, c[i])); break;
  case 3: vs_assume(p != 'Q'); { Char o[1] = {'Q'}; r = s->Replace(mkString(o, 1), q); for (int i = 0; i < n; i++) if (i != at && i % 9 == 4) hs(w, 2); else hc(c[i]); } break;
  case 4: r = s->PadLeft(n + 70, z); for (int i = 0; i < 70; i++) hc(z); hs(c, n); break;
  case 5: r = s->PadRight(n + 70, z); hs(c, n); for (int i = 0; i < 70; i++) hc(z); break;
  case 6: r = s->Substring(at, n - at - 1 < 0 ? 0 : n - at - 1); hs(c + at, n - at - 1); break;
  case 7: r = s->ToUpper(); for (int i = 0; i < n; i++) hc(c[i] - 32 * ((c[i] >= 'a') & (c[i] <= 'z'))); break;
  case 8: r = s->ToLower(); for (int i = 0; i < n; i++) hc(c[i] + 32 * ((c[i] >= 'A') & (c[i] <= 'Z'))); break;
  case 9: r = String::Concat(q, s, q); hs(w, 2); hs(c, n); hs(w, 2); break;
  case 10: arr = new Array(StringType, 3); for (int i = 0; i < 3; i++) *(Object **)arr->Address(i) = i == 1 ? s : q; r = String::Join((Char)',', arr); hs(w, 2); hc(','); hs(c, n); hc(','); hs(w, 2); break;
  case 11: arr = s->ToCharArray(at); { bool g = arr->get_Length() == n - at; for (int i = at; g && i < n; i++) g = g & (*(Char *)arr->Address(i - at) == c[i]); vs_check(g, "the characters"); } r = String::Copy(s); hs(c, n); break;
  case 12: { for (int i = 0; i < n; i++) if (i != n / 2) s->get_Buffer()[i] = c[i] = ' '; c[n / 2] = s->get_Buffer()[n / 2] = 'x'; int w = p_range("w", 0, 2); r = w == 0 ? s->Trim() : w == 1 ? s->TrimStart(nullptr) : s->TrimEnd(nullptr); if (w == 2) hs(c, n / 2); hc('x'); if (w == 1) hs(c + n / 2 + 1, n - n / 2 - 1); vs_cover("huge trim"); break; }
  case 13: arr = new Array(CharType, n + 2); for (int i = 0; i < n + 2; i++) *(Char *)arr->Address(i) = 7; s->CopyTo(at, arr, 1, n - at); { bool g = *(Char *)arr->Address(0) == 7; for (int i = 1; i < n + 2; i++) g = g & (*(Char *)arr->Address(i) == (i - 1 < n - at ? c[at + i - 1] : 7)); vs_check(g, "exactly the range is copied"); } r = s->ToString(); hs(c, n); break;
  }
  vs_check(isText(r, hg.c, hg.n), "exactly the specified text"); vs_check(isText(s, c, n), "operand unchanged"); vs_cover("huge");
}
