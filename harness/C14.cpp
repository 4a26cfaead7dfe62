// C14 string comparison and equality
#include "vs.h"
//@bound pairs of strings of 15..32 and 128..131 characters (thorough 15 lengths up to 258) with one arbitrary character each; all pairs of strings of 0..3 characters (thorough 0..4), all triples of strings of 0..2 characters (thorough 0..3) for transitivity; characters any code 0..0x10ffff; start indices and length of ranged comparison over the full 32-bit range; lengths 260, 600, 1030 and 4100 (thorough 17 lengths up to 8200) with one or two arbitrary characters and positions at the ends and the middle
//@assume "C" locale case folding (modelled)
static int sgn(int x) { return (x > 0) - (x < 0); }
static Char low(Char c) { return c + 32 * ((c >= 'A') & (c <= 'Z')); }
struct T { int n; Char c[8]; String *s; };
static T mk(const char *nm, int N) { T t; t.n = p_range("len", 0, N); for (int i = 0; i < t.n; i++) t.c[i] = s_char(nm); t.c[t.n] = 0; t.s = mkString(t.c, t.n); return t; }
// sign of comparison of at most len characters from the given starts
static int ref(const T &a, int i, const T &b, int j, int64_t len, bool fold) {
  for (int64_t k = 0;; k++) { if (k >= len) return 0; bool ea = i + k >= a.n, eb = j + k >= b.n; if (ea | eb) return (int)eb - (int)ea; Char x = a.c[i + k], y = b.c[j + k]; if (fold) { x = low(x); y = low(y); } if (x != y) return x < y ? -1 : 1; }
}
static int N2() { return THOROUGH() ? 4 : 3; }
ENTRY(ordinal) { //@ shards=4 tshards=5 twice=1
  T a = mk("a", N2()), b = mk("b", N2()); int r = sgn(String::CompareOrdinal(a.s, b.s)); int e = ref(a, 0, b, 0, 100, false); vs_check(r == e, "sign of first difference or length difference"); vs_check(sgn(String::CompareOrdinal(b.s, a.s)) == -r, "antisymmetric");
  bool eq = e == 0; vs_check(a.s->Equals(b.s) == eq && a.s->Equals((Object *)b.s) == eq && String::Equals(a.s, b.s) == eq && String::Equals((Object *)a.s, b.s) == eq && String::Equals(a.s, (Object *)b.s) == eq, "Equals exactly when zero"); vs_check(String::op_Inequality(a.s, b.s) == !eq, "inequality"); vs_check(Object::Equals(a.s, b.s) == eq, "object equality");
  if (eq) vs_cover("equal"); else vs_cover("different"); vs_check(isText(a.s, a.c, a.n) & isText(b.s, b.c, b.n), "operands unchanged");
}
ENTRY(folded) { //@ shards=4 tshards=5 twice=1
  T a = mk("a", N2()), b = mk("b", N2()); int r = sgn(String::Compare(a.s, b.s, true)); vs_check(r == ref(a, 0, b, 0, 100, true), "comparison of case-folded strings"); vs_check(sgn(String::Compare(b.s, a.s, true)) == -r, "antisymmetric"); vs_check(sgn(String::CompareOrdinal(a.s->ToLower(), b.s->ToLower())) == r, "same as folding first"); vs_cover("folded");
}
ENTRY(linguistic) { //@ shards=4 tshards=5
  T a = mk("a", N2()), b = mk("b", N2()); int r = sgn(String::Compare(a.s, b.s)); bool eq = ref(a, 0, b, 0, 100, false) == 0; vs_check((r == 0) == eq, "zero exactly when equal"); vs_check(sgn(String::Compare(b.s, a.s)) == -r, "antisymmetric"); int f = ref(a, 0, b, 0, 100, true); if (f) vs_check(r == f, "letters order before case"); vs_check(sgn(a.s->CompareTo(b.s)) == r && sgn(a.s->CompareTo((Object *)b.s)) == r, "CompareTo agrees"); vs_cover("linguistic");
}
static int N3() { return THOROUGH() ? 3 : 2; }
template <class F> static void trans(F cmp) { T a = mk("a", N3()), b = mk("b", N3()), c = mk("c", N3()); int x = sgn(cmp(a.s, b.s)), y = sgn(cmp(b.s, c.s)), z = sgn(cmp(a.s, c.s)); if (x <= 0 && y <= 0) { vs_check(z <= 0, "transitive"); if (x < 0 || y < 0) vs_check(z < 0, "strictly transitive"); vs_cover("chain"); } }
ENTRY(trans_ling) { trans([](String *p, String *q) { return String::Compare(p, q); }); } //@ shards=3 tshards=4 cost=4
ENTRY(trans_ord) { trans([](String *p, String *q) { return String::CompareOrdinal(p, q); }); } //@ shards=3 tshards=4 cost=3 twice=1
ENTRY(ranged) { //@ shards=4 tshards=4 cost=2
  T a = mk("a", THOROUGH() ? 3 : 2), b = mk("b", THOROUGH() ? 3 : 2); int mode = p_range("mode", 0, 2); int i = s_i32("i"), j = s_i32("j"), len = s_i32("len"); int r = 0; int x = outcome([&] { r = mode == 0 ? String::CompareOrdinal(a.s, i, b.s, j, len) : String::Compare(a.s, i, b.s, j, len, mode == 2); });
  bool ok = i >= 0 && j >= 0 && len >= 0 && i <= a.n && j <= b.n; if (!ok) { vs_check(x == X_RANGE, "range outside a string raises"); vs_cover("bad range"); return; }
  i = (int)vs_pick(i); j = (int)vs_pick(j); int e = ref(a, i, b, j, len, mode == 2), f = ref(a, i, b, j, len, true); vs_check(x == X_NONE, "range inside"); if (mode != 1) vs_check(sgn(r) == e, "compares exactly the ranges"); else { vs_check((r == 0) == (e == 0), "zero exactly when equal"); if (f) vs_check(sgn(r) == f, "letters first"); } vs_cover("ranged");
}
ENTRY(nulls) { //@ twice=1
  T a = mk("a", 1); String *z = nullptr; vs_check(sgn(String::Compare(z, a.s)) == -1 && sgn(String::Compare(a.s, z)) == 1 && String::Compare(z, z) == 0 && sgn(String::Compare(z, a.s, true)) == -1, "null sorts first"); vs_check(sgn(String::CompareOrdinal(z, a.s)) == -1 && sgn(String::CompareOrdinal(a.s, z)) == 1 && String::CompareOrdinal(z, z) == 0, "null sorts first (ordinal)");
  vs_check(sgn(a.s->CompareTo(z)) == 1 && sgn(a.s->CompareTo((Object *)nullptr)) == 1, "greater than null"); vs_check(!a.s->Equals(z) && !a.s->Equals((Object *)nullptr) && !String::Equals(a.s, z) && !String::Equals(z, a.s) && String::Equals(z, z) && String::op_Inequality(a.s, z) && String::op_Inequality(z, a.s) && !String::op_Inequality(z, z), "null equality");
  Int32Value v(s_i32("v")); vs_check(!a.s->Equals((Object *)&v) && !String::Equals((Object *)&v, a.s) && !String::Equals(a.s, (Object *)&v), "foreign object is not equal"); vs_check(outcome([&] { a.s->CompareTo((Object *)&v); }) == X_ARG, "ordering against a foreign object raises"); vs_check(sgn(String::Compare(z, s_i32("i"), a.s, 0, 1)) == -1, "null operand of a ranged comparison"); vs_cover("null");
}
// ---- longer texts: a common beginning, then an arbitrary character in each, then different or missing ends
ENTRY(longer) { //@ shards=3
  int p = longLen("p") - p_range("off", 1, 2), mode = p_range("mode", 0, 2), la = p + p_range("la", 0, 3), lb = p + p_range("lb", 0, 3); static Char a[270], b[270]; for (int i = 0; i < 262; i++) a[i] = b[i] = i % 7 == 3 ? 'A' + i % 26 : i % 11 == 2 ? 0 : 'a' + i % 26; Char c = s_char("c"), d = s_char("d"); a[p] = c; b[p] = d; a[p + 1] = 'k'; b[p + 1] = p % 2 ? 'k' : 'm'; int flip = p_range("flip", 0, 1); if (flip) a[2] = 'C', b[2] = 'c';
  a[la] = b[lb] = 0; String *s = mkString(a, la), *t = mkString(b, lb); auto ref = [&](bool fold) { for (int i = 0; ; i++) { if (i >= la || i >= lb) return (la > lb) - (la < lb); Char x = a[i], y = b[i]; if (fold) { x = low(x); y = low(y); } if (x != y) return x < y ? -1 : 1; } };
  int e = ref(false), f = ref(true); vs_check(s->Equals(t) == (e == 0) && String::op_Inequality(s, t) == (e != 0), "equal exactly when every character is"); if (mode == 0) vs_check(sgn(String::CompareOrdinal(s, t)) == e, "sign of first difference or length difference"); if (mode == 1) vs_check(sgn(String::Compare(s, t, true)) == f, "comparison of case-folded strings"); if (mode == 2) { int r = sgn(String::Compare(s, t)); vs_check((r == 0) == (e == 0) && sgn(String::Compare(t, s)) == -r, "zero exactly when equal"); if (f) vs_check(r == f, "letters order before case"); } int q = inner("from", p); vs_check(sgn(String::CompareOrdinal(s, q, t, q, p - q)) == (flip && q <= 2 && p > 2 ? -1 : 0), "a common part compares equal"); vs_cover("longer");
}
// ---- the comparison of two plain buffers: at most length characters, and no character after a terminator both texts share
ENTRY(raw) { //@ shards=3 cost=2
  const int N = N2(); int na = p_range("na", 0, N), nb = p_range("nb", 0, N), i = p_range("i", 0, na), j = p_range("j", 0, nb), mode = p_range("mode", 0, 2); Char oa[6], ob[6]; Char *a = (Char *)malloc(sizeof(Char) * (na + 1)), *b = (Char *)malloc(sizeof(Char) * (nb + 1)); for (int k = 0; k < na; k++) oa[k] = a[k] = s_nz("a"); for (int k = 0; k < nb; k++) ob[k] = b[k] = s_nz("b"); oa[na] = a[na] = ob[nb] = b[nb] = 0;
  int len = s_i32("len"); int r = sgn(String::Compare(a, i, b, j, len, mode == 1, mode == 0)); auto ref = [&](bool fold) { for (int k = 0; k < len; k++) { Char x = oa[i + k], y = ob[j + k]; if (fold) { x = low(x); y = low(y); } if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; };
  int e = ref(false), f = ref(true); if (mode == 0) vs_check(r == e, "sign of the first difference"); if (mode == 1) vs_check(r == f, "comparison of case-folded texts"); if (mode == 2) { vs_check((r == 0) == (e == 0), "zero exactly when equal"); if (f) vs_check(r == f, "letters order before case"); vs_check(sgn(String::Compare(b, j, a, i, len, false, false)) == -r, "antisymmetric"); }
  bool same = true; for (int k = 0; k <= na; k++) same &= a[k] == oa[k]; for (int k = 0; k <= nb; k++) same &= b[k] == ob[k]; vs_check(same, "operands unchanged"); if (len <= 0) vs_cover("raw nothing"); else vs_cover("raw"); free(a); free(b);
}
// ---- huge: lengths far past every buffer and chunk size in the library
ENTRY(huge) { //@ shards=4 again=0 cost=2 steps=40000000
  int n = hugeLen("n"), at = p_range("at", 0, 1) ? n - 1 : n / 2, more = p_range("more", 0, 1); static Char a[8300], b[8300]; for (int i = 0; i < n; i++) a[i] = b[i] = i % 7 == 3 ? 'A' + i % 26 : 'a' + i % 26; Char c = s_char("c"), d = s_char("d"); a[at] = c; b[at] = d; a[n] = 'k'; a[n + 1] = b[n] = 0; String *s = mkString(a, n + more), *t = mkString(b, n); auto ord = [](Char x, Char y, int z) { return x < y ? -1 : x > y ? 1 : z; }; int e = ord(c, d, more), f = ord(low(c), low(d), more);
  vs_check(sgn(String::CompareOrdinal(s, t)) == e && sgn(String::CompareOrdinal(t, s)) == -e, "sign of first difference or length difference"); vs_check(sgn(String::Compare(s, t, true)) == f, "comparison of case-folded strings"); int r = sgn(String::Compare(s, t)); vs_check((r == 0) == (e == 0), "zero exactly when equal"); if (f) vs_check(r == f, "letters order before case"); vs_check(s->Equals(t) == (e == 0) && String::op_Inequality(t, s) == (e != 0), "equal exactly when every character is"); vs_cover("huge");
}
