// C15 string searching
#include "vs.h"
//@bound texts of 17, 33 and 130 characters (thorough 15 lengths up to 257) with up to two occurrences; all texts of 0..4 characters (thorough 0..6), patterns of 0..3 (thorough 0..4) and character sets of 0..2 (thorough 0..3), characters any code 0..0x10ffff; start index and count over the full 32-bit range; lengths 260, 600, 1030 and 4100 (thorough 17 lengths up to 8200) with one or two arbitrary characters and positions at the ends and the middle
//@assume negative start/count of the LastIndexOf family are the documented defaults
struct T { int n; Char c[8]; String *s; };
static T mk(const char *nm, int lo, int N) { T t; t.n = p_range("len", lo, N); for (int i = 0; i < t.n; i++) t.c[i] = s_char(nm); t.c[t.n] = 0; t.s = mkString(t.c, t.n); return t; }
static int NT() { return THOROUGH() ? 6 : 4; }
static int NP() { return THOROUGH() ? 4 : 3; }
// does text have pattern p at position i completely inside [lo, hi)?
static bool at(const T &t, const T &p, int64_t i, int64_t lo, int64_t hi) { if (i + p.n > t.n) return false; bool r = (i >= lo) & (i + p.n <= hi); for (int k = 0; k < p.n; k++) r = r & (t.c[i + k] == p.c[k]); return r; }
static bool isAny(const T &t, const T &set, int i, int64_t lo, int64_t hi) { bool r = false; for (int k = 0; k < set.n; k++) r = r | (t.c[i] == set.c[k]); return r & (i >= lo) & (i < hi); }
template <class F> static int64_t first(int n, F f) { int64_t r = -1; for (int i = n; i >= 0; i--) r = (int64_t)vs_ite(f(i), i, r); return r; }
template <class F> static int64_t last(int n, F f) { int64_t r = -1; for (int i = 0; i <= n; i++) r = (int64_t)vs_ite(f(i), i, r); return r; }
static Array *mkSet(const T &p) { Array *a = new Array(CharType, p.n); for (int i = 0; i < p.n; i++) *(Char *)a->Address(i) = p.c[i]; return a; }
static void unchanged(const T &t) { vs_check(isText(t.s, t.c, t.n), "text unchanged"); }
// kind 0: char, 1: string, 2: any of
static void fwd(int kind) {
  T t = mk("t", 0, NT()), p = kind == 0 ? mk("p", 1, 1) : mk("p", 0, kind == 1 ? NP() : THOROUGH() ? 3 : 2); int form = p_range("form", 0, 2); int s = 0, c = t.n; if (form) s = s_i32("start"); if (form == 2) c = s_i32("count"); Array *a = kind == 2 ? mkSet(p) : nullptr; int r = -2;
  int x = outcome([&] {
    if (kind == 0) r = form == 0 ? t.s->IndexOf(p.c[0]) : form == 1 ? t.s->IndexOf(p.c[0], s) : t.s->IndexOf(p.c[0], s, c);
    if (kind == 1) r = form == 0 ? t.s->IndexOf(p.s) : form == 1 ? t.s->IndexOf(p.s, s) : t.s->IndexOf(p.s, s, c);
    if (kind == 2) r = form == 0 ? t.s->IndexOfAny(a) : form == 1 ? t.s->IndexOfAny(a, s) : t.s->IndexOfAny(a, s, c); });
  bool ok = s >= 0 && s <= t.n && (form != 2 || (c >= 0 && (int64_t)s + c <= t.n)); if (!ok) { vs_check(argerr(x), "a range outside the string raises"); vs_cover("refused"); unchanged(t); return; }
  vs_check(x == X_NONE, "a range inside is searched"); int64_t hi = form == 2 ? (int64_t)s + c : t.n; int64_t e = kind == 2 ? first(t.n - 1, [&](int i) { return isAny(t, p, i, s, hi); }) : first(t.n, [&](int i) { return at(t, p, i, s, hi); });
  vs_check(r == e, "lowest position of a complete match inside the range"); if (r >= 0) vs_cover("found"); else vs_cover("absent"); unchanged(t);
}
ENTRY(index_char) { fwd(0); } //@ shards=5 tshards=7
ENTRY(index_string) { fwd(1); } //@ shards=5 tshards=7 cost=3
ENTRY(index_any) { fwd(2); } //@ shards=5 tshards=7
static void bwd(int kind) {
  T t = mk("t", 0, NT()), p = kind == 0 ? mk("p", 1, 1) : mk("p", 0, kind == 1 ? NP() : THOROUGH() ? 3 : 2); int form = p_range("form", 0, 2); int s = -1, c = -1; if (form) s = s_i32("start"); if (form == 2) c = s_i32("count"); Array *a = kind == 2 ? mkSet(p) : nullptr; int r = -2;
  int x = outcome([&] {
    if (kind == 0) r = form == 0 ? t.s->LastIndexOf(p.c[0]) : form == 1 ? t.s->LastIndexOf(p.c[0], s) : t.s->LastIndexOf(p.c[0], s, c);
    if (kind == 1) r = form == 0 ? t.s->LastIndexOf(p.s) : form == 1 ? t.s->LastIndexOf(p.s, s) : t.s->LastIndexOf(p.s, s, c);
    if (kind == 2) r = form == 0 ? t.s->LastIndexOfAny(a) : form == 1 ? t.s->LastIndexOfAny(a, s) : t.s->LastIndexOfAny(a, s, c); });
  int64_t S = s < 0 ? t.n - 1 : s, C = c < 0 ? S + 1 : c; unchanged(t);
  if (S > t.n || C > S + 1) { vs_check(argerr(x), "a range outside the string raises"); vs_cover("refused back"); return; }
  if (S == t.n && s >= 0 && x != X_NONE) { vs_check(x == X_RANGE || x == X_INDEX, "position just past the text may be refused"); return; }
  vs_check(x == X_NONE, "a range inside is searched"); int64_t lo = S - C + 1, hi = S + 1;
  if (kind == 1 && p.n == 0) { vs_check(r >= -1 && r <= t.n, "empty pattern: a position of the text or none"); return; }
  int64_t e = kind == 2 ? last(t.n - 1, [&](int i) { return isAny(t, p, i, lo, hi); }) : last(t.n, [&](int i) { return at(t, p, i, lo, hi); }); vs_check(r == e, "highest position of a complete match inside the range"); if (r >= 0) vs_cover("found last"); else vs_cover("absent last");
}
ENTRY(last_char) { bwd(0); } //@ shards=5 tshards=7
ENTRY(last_string) { bwd(1); } //@ shards=5 tshards=7 cost=3
ENTRY(last_any) { bwd(2); } //@ shards=5 tshards=7
ENTRY(affix) { //@ shards=5 tshards=7
  T t = mk("t", 0, NT()), p = mk("p", 0, NP()); int64_t f = first(t.n, [&](int i) { return at(t, p, i, 0, t.n); }); vs_check(t.s->Contains(p.s) == (f >= 0), "Contains agrees with IndexOf"); vs_check(t.s->StartsWith(p.s) == (f == 0), "StartsWith"); vs_check(t.s->EndsWith(p.s) == (p.n <= t.n && at(t, p, t.n - p.n, 0, t.n)), "EndsWith");
  Char c = s_char("c"); vs_check(t.s->EndsWith(c) == (t.n > 0 && t.c[t.n - 1] == c), "EndsWith character"); vs_check(t.s->StartsWith(t.s) && t.s->EndsWith(t.s) && t.s->Contains(t.s), "a string starts and ends with itself"); vs_cover("affix"); unchanged(t); vs_check(isText(p.s, p.c, p.n), "pattern unchanged");
}
ENTRY(nulls) { //@ twice=1
  T t = mk("t", 0, 2); String *z = nullptr; Array *za = nullptr; int k = p_range("k", 0, 10); int s = s_i32("s"), c = s_i32("c"); int r;
  int x = outcome([&] { switch (k) { case 0: r = t.s->IndexOf(z); break; case 1: r = t.s->IndexOf(z, s); break; case 2: r = t.s->IndexOf(z, s, c); break; case 3: r = t.s->IndexOfAny(za); break; case 4: r = t.s->IndexOfAny(za, s); break; case 5: r = t.s->IndexOfAny(za, s, c); break; case 6: r = t.s->LastIndexOf(z, s, c); break; case 7: r = t.s->LastIndexOfAny(za, s, c); break; case 8: r = t.s->Contains(z); break; case 9: r = t.s->StartsWith(z); break; case 10: r = t.s->EndsWith(z); break; } });
  vs_check(x == X_NULL || x == X_ARG || x == X_RANGE, "null argument raises"); vs_cover("null");
}
ENTRY(wrongtype) { T t = mk("t", 1, 2); Array *a = new Array(Int16Type, 2); int k = p_range("k", 0, 1); int x = outcome([&] { if (k) t.s->IndexOfAny(a); else t.s->LastIndexOfAny(a); }); vs_check(x != X_NONE, "array of another type raises"); Array *b = new Array(CharType, 1, 2); x = outcome([&] { if (k) t.s->IndexOfAny(b); else t.s->LastIndexOfAny(b); }); vs_check(x != X_NONE, "two-dimensional array raises"); vs_cover("wrong type"); } //@ twice=1
// ---- longer texts: up to two occurrences placed anywhere, searched in ranges around them
ENTRY(longer) { //@ shards=6 cost=2
  int kind = p_range("kind", 0, 5), n = longLen("n"), at1 = inner("at", n - 1), pn = kind % 3 == 1 ? p_range("pn", 1, 3) : 1, gap = p_range("gap", 0, 2) * pn; static Char c[270], p[4]; p[0] = s_char("p"); p[1] = 'y'; p[2] = 'z'; p[3] = 0; vs_assume(p[0] != 'q' && p[0] != 'y' && p[0] != 'z'); for (int i = 0; i < n; i++) c[i] = 'q'; c[n] = 0; int hit[2] = {-1, -1}; for (int h = 0; h < 2; h++) { int w = at1 + h * gap; if (h && !gap) continue; for (int i = 0; i < pn && w + i < n; i++) c[w + i] = p[i]; if (w + pn <= n) hit[h] = w; } if (gap && gap < pn) vs_stop();
  String *s = mkString(c, n), *q = mkString(p, pn); Array *set = new Array(CharType, 3); for (int i = 0; i < 3; i++) *(Char *)set->Address(i) = i == 1 ? p[0] : 'w' + i; int d = p_range("d", -1, 3), k = p_range("k", 0, 3); int r = -2;
  if (kind < 3) { int lo = hit[0] < 0 || d < 0 ? (d + 2) % 2 : hit[0] - 1 + d; if (lo < 0 || lo > n) vs_stop(); int hi = k == 0 ? n : (hit[1] < 0 ? hit[0] < 0 ? n : hit[0] : hit[1]) + pn - 2 + k; if (hi < lo || hi > n) vs_stop(); int x = outcome([&] { r = kind == 0 ? s->IndexOf(p[0], lo, hi - lo) : kind == 1 ? s->IndexOf(q, lo, hi - lo) : s->IndexOfAny(set, lo, hi - lo); }); vs_check(x == X_NONE, "a range inside is searched"); int e = -1; for (int h = 1; h >= 0; h--) if (hit[h] >= lo && hit[h] >= 0 && hit[h] + pn <= hi) e = hit[h]; vs_check(r == e, "lowest position of a complete match inside the range"); vs_cover("long first"); }
  else { int hi = k == 0 ? n : (hit[1] < 0 ? hit[0] < 0 ? n : hit[0] : hit[1]) + pn - 2 + k; int lo = hit[0] < 0 || d < 0 ? (d + 2) % 2 : hit[0] - 1 + d; if (lo < 0 || lo > hi || hi < 1 || hi > n) vs_stop(); int x = outcome([&] { r = kind == 3 ? s->LastIndexOf(p[0], hi - 1, hi - lo) : kind == 4 ? s->LastIndexOf(q, hi - 1, hi - lo) : s->LastIndexOfAny(set, hi - 1, hi - lo); }); vs_check(x == X_NONE, "a range inside is searched"); int e = -1; for (int h = 0; h < 2; h++) if (hit[h] >= lo && hit[h] >= 0 && hit[h] + pn <= hi) e = hit[h]; vs_check(r == e, "highest position of a complete match inside the range"); vs_cover("long last"); }
  if (kind == 1) { int e = hit[0]; vs_check(s->Contains(q) == (e >= 0), "Contains agrees with IndexOf"); vs_check(s->StartsWith(q) == (e == 0), "StartsWith"); vs_check(s->EndsWith(q) == (hit[1] == n - pn || e == n - pn), "EndsWith"); String *pre = mkString(c, n - 1), *suf = mkString(c + 1, n - 1); vs_check(s->StartsWith(pre) && s->EndsWith(suf) && !pre->StartsWith(s) && !suf->EndsWith(s), "long beginnings and ends"); vs_cover("long affix"); } vs_check(isText(s, c, n), "text unchanged");
}
// ---- huge: lengths far past every buffer and chunk size in the library
ENTRY(huge) { //@ shards=4 again=0 cost=2 steps=40000000
  int n = hugeLen("n"), k = p_range("at", 0, 2), at = k == 0 ? 0 : k == 1 ? n / 2 : n - 2; static Char c[8300]; for (int i = 0; i < n; i++) c[i] = 'q'; Char p = s_char("p"), z = s_char("z"); vs_assume(p != 'q' && p != 'y'); vs_assume(z != 'q' && z != 'y' && z != p); c[at] = p; c[at + 1] = 'y'; c[n] = 0; String *s = mkString(c, n); Char w[2] = {p, 'y'}, v[2] = {p, 'q'}; String *q = mkString(w, 2), *no = mkString(v, 2), *pre = mkString(c, n - 1), *suf = mkString(c + 1, n - 1); Array *set = new Array(CharType, 2); *(Char *)set->Address(0) = p; *(Char *)set->Address(1) = z;
  vs_check(s->IndexOf(p) == at && s->IndexOf(q) == at && s->IndexOf(no) == -1 && s->IndexOfAny(set) == at, "lowest position"); vs_check(s->LastIndexOf(p) == at && s->LastIndexOf(q) == at && s->LastIndexOf(no) == -1, "highest position");
  vs_check(s->Contains(q) && s->StartsWith(q) == (at == 0) && s->EndsWith(q) == (at == n - 2), "beginning, end and anywhere"); vs_check(s->StartsWith(pre) && s->EndsWith(suf) && s->IndexOf(suf) == 1 && s->LastIndexOf(pre) == 0 && !pre->StartsWith(s), "long beginnings and ends"); vs_check(s->IndexOf(q, at + 1) == -1 && s->IndexOf(p, 0, at) == -1, "inside the range only"); vs_check(isText(s, c, n), "text unchanged"); vs_cover("huge");
}
