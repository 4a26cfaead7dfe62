// C31 time span text
#include "dt.h"
//@bound formatting and round trip: every 64-bit tick count (decimal digit by decimal digit); parsing: every text of up to 6 characters (thorough: 8), and every sequence of up to five fields of one or two digits (days 1, 2, 7, 8 or 9, last field up to 8) with arbitrary separators
struct Txt { Char c[40]; int n; };
static void put(Txt &t, Char c) { t.c[t.n++] = c; }
static void dig(Txt &t, int64_t d) { put(t, (Char)(L'0' + d)); }
static bool same(const Char *w, int r, Txt &o) { bool ok = r == o.n; if (ok) for (int i = 0; i < o.n; i++) ok &= w[i] == o.c[i]; return ok; }
// a span by its decimal digits: 8 of days, 2 each of hours, minutes, seconds, 7 of the fraction
static const int LIM[21] = {1, 0, 6, 7, 5, 1, 9, 9, 0, 2, 4, 8, 0, 5, 4, 7, 7, 5, 8, 0, 8}; // 2^63 ticks
static const int64_t W[21] = {10000000 * TPD, 1000000 * TPD, 100000 * TPD, 10000 * TPD, 1000 * TPD, 100 * TPD, 10 * TPD, TPD, 360000000000LL, 36000000000LL, 6000000000LL, 600000000LL, 100000000LL, 10000000LL, 1000000, 100000, 10000, 1000, 100, 10, 1};
static const char *NM[21] = {"d7", "d6", "d5", "d4", "d3", "d2", "d1", "d0", "h1", "h0", "m1", "m0", "s1", "s0", "f6", "f5", "f4", "f3", "f2", "f1", "f0"};
struct DSpan { int64_t t; bool neg; int64_t g[21]; int z; };
// free digits below position from, with hours 00..23
static void freeDigits(DSpan &s, int from, bool late) {
  for (int i = from; i < 21; i++) { int mx = i == 10 || i == 12 ? 5 : 9; if (i == 8) s.g[i] = late ? 2 : vs_range(NM[i], 0, 1); else if (i == 9 && from <= 8) s.g[i] = vs_range(NM[i], 0, late ? 3 : 9); else s.g[i] = vs_range(NM[i], 0, mx); }
}
// a text with z leading zero digits of days, or (z == 0) equal to the limit up to position k and smaller there
static DSpan any_dspan(int c) {
  DSpan s; s.neg = p_range("negative", 0, 1) != 0; s.z = 0; int late = p_range("late", 0, 1); // hours 20..23 apart
  if (c < 8) { s.z = c + 1; for (int i = 0; i < s.z; i++) s.g[i] = 0; if (s.z < 8) s.g[s.z] = vs_range(NM[s.z], 1, 9); freeDigits(s, s.z < 8 ? s.z + 1 : 8, late); }
  else { int k = c - 8; // 1..21
    for (int i = 0; i < k && i < 21; i++) s.g[i] = LIM[i]; if (k == 21) { vs_assume(!late); if (!s.neg) vs_assume(false); }
    else { if (!LIM[k]) vs_assume(false); int lo = 0, hi = LIM[k] - 1; s.g[k] = lo == hi ? lo : vs_range(NM[k], lo, hi); if (k >= 8) vs_assume(!late); freeDigits(s, k + 1, late); } }
  int64_t m = 0; if (c - 8 == 21) s.t = INT64_MIN; else { for (int i = 0; i < 21; i++) m += W[i] * s.g[i]; s.t = s.neg ? -m : m; }
  return s;
}
// the documented text; frac: whether a fraction is written
static void expect(DSpan &s, Txt &o, bool frac) {
  o.n = 0; if (s.neg) put(o, L'-'); for (int i = s.z; i < 8; i++) dig(o, s.g[i]); if (s.z < 8) put(o, L'.'); dig(o, s.g[8]); dig(o, s.g[9]); put(o, L':'); dig(o, s.g[10]); dig(o, s.g[11]); put(o, L':'); dig(o, s.g[12]); dig(o, s.g[13]);
  if (frac) { put(o, L'.'); for (int i = 14; i < 21; i++) dig(o, s.g[i]); }
}
ENTRY(format) { //@ shards=6 cost=3 tmo=250
  int c = p_range("case", 0, 29); vs_assume(c != 8); DSpan s = any_dspan(c); int64_t f = 0; for (int i = 14; i < 21; i++) f += s.g[i] * W[i]; bool frac = f != 0; vs_assume(s.t != 0 || !s.neg); if (s.neg) vs_assume(s.t < 0);
  TimeSpanValue b((TimeSpan(s.t))); Txt o; expect(s, o, frac); Char w[32]; w[31] = 0x7777; int r = 0, x = outcome([&] { r = b.FormatString(w, 31); }); vs_check(x == X_NONE, "formatting succeeds"); if (x != X_NONE) return;
  vs_check(same(w, r, o), "sign, days, two-digit fields and seven-digit fraction"); vs_check(w[31] == 0x7777 && b.get_Ticks() == s.t, "nothing else is touched"); if (frac) vs_cover("fraction"); else vs_cover("whole");
  // and back
  String t(w, 0, r); int64_t got = 1; x = outcome([&] { got = TimeSpanValue::Parse(&t).value; }); vs_check(x == X_NONE && got == s.t, "parsing the text gives the span back"); TimeSpan u(77); bool ok = TimeSpanValue::TryParse(&t, u); vs_check(ok && u.value == s.t, "TryParse too"); if (c == 29) vs_cover("smallest"); }
ENTRY(buffer) { int size = p_range("size", -1, 27); DSpan s = any_dspan(p_range("long", 0, 7)); TimeSpanValue b((TimeSpan(s.t))); vs_assume(s.t != 0); int64_t f = 0; for (int i = 14; i < 21; i++) f += s.g[i] * W[i]; vs_assume(f != 0); Txt o; expect(s, o, true); Char *w = (Char *)malloc(sizeof(Char) * (size > 0 ? size : 1)); w[0] = 0x7777; int r = 0, x = outcome([&] { r = b.FormatString(w, size); });
  if (size > o.n) { vs_check(x == X_NONE && same(w, r, o), "a sufficient buffer is enough"); vs_cover("fits"); } else { vs_check(x != X_NONE, "a buffer that is too small raises"); if (size <= 0) vs_check(w[0] == 0x7777, "nothing is written into an empty buffer"); vs_cover("too small"); } }
ENTRY(tostring) { DSpan s = any_dspan(p_range("case", 0, 7)); vs_assume(s.t != 0); int64_t f = 0; for (int i = 14; i < 21; i++) f += s.g[i] * W[i]; vs_assume(f != 0); Txt o; expect(s, o, true); TimeSpanValue b((TimeSpan(s.t))); String *t = b.ToString(); vs_check(same(t->get_Buffer(), t->get_Length(), o), "ToString"); vs_cover("ToString"); } //@ shards=2
// ---- reference reading of a text: 0 good, 1 malformed, 2 field too large
static bool isD(Char c) { return (c >= L'0') & (c <= L'9'); }
static int ref(const Char *c, int n, int64_t &out) {
  int p = 0; bool neg = false; if (n && c[0] == L'-') { neg = true; p = 1; } Char sep[5]; int st[5], en[5], f = 0;
  for (;;) { st[f] = p; while (p < n && isD(c[p])) p++; en[f] = p; if (st[f] == en[f]) return 1; f++; if (p == n) break; if (f == 5) return 1; if (c[p] != L':' && c[p] != L'.') return 1; sep[f - 1] = c[p]; p++; }
  // separators: all ':' but for a '.' after leading days and a '.' before a trailing fraction
  int first = 0; bool frac = false; if (f >= 2 && sep[f - 2] == L'.') { if (f == 2) return 1; frac = true; } int nf = frac ? f - 1 : f; // fields before the fraction
  bool days = nf == 1; for (int i = 0; i + 1 < nf; i++) if (sep[i] == L'.') { if (i) return 1; days = true; } if (nf == 4) days = true; if (nf == 5) return 1;
  if (days && nf == 2) return 1; if (frac && nf != (days ? 4 : 3)) return 1; if (frac && en[f - 1] - st[f - 1] > 7) return 1;
  static const int64_t U[4] = {864000000000LL, 36000000000LL, 600000000LL, 10000000LL}; static const int64_t MX[4] = {10675199, 23, 59, 59}; uint64_t t = 0; const uint64_t TOP = 1ull << 63;
  first = days ? 0 : 1; for (int i = 0; i < nf; i++) { int64_t v = 0; for (int j = st[i]; j < en[i]; j++) v = v * 10 + (c[j] - L'0'); if (v > MX[first + i]) return 2; t += (uint64_t)v * U[first + i]; }
  if (frac) { int64_t w = 1000000; for (int j = st[f - 1]; j < en[f - 1]; j++) { t += (uint64_t)w * (c[j] - L'0'); w /= 10; } }
  if (t > TOP || (t == TOP && !neg)) return 2; out = (int64_t)(neg ? 0 - t : t); return 0;
}
static void compare(const Char *c, int n) {
  Char *w = (Char *)malloc(sizeof(Char) * (n + 1)); for (int i = 0; i < n; i++) w[i] = c[i]; w[n] = 0; String t(w, 0, n); int64_t e = 0, got = 1; int k = ref(c, n, e); int x = outcome([&] { got = TimeSpanValue::Parse(&t).value; });
  TimeSpan u(77); bool ok = false; int y = outcome([&] { ok = TimeSpanValue::TryParse(&t, u); }); vs_check(y == X_NONE, "TryParse never raises");
  if (k == 0) { vs_check(x == X_NONE && got == e, "value of a well formed text"); vs_check(ok && u.value == e, "TryParse gives it too"); vs_cover("good"); }
  else { vs_check(k == 1 ? x == X_FORMAT : x == X_OVERFLOW, "malformed text or a field that does not fit raises"); vs_check(!ok && u.value == 0, "TryParse reports false"); if (k == 1) vs_cover("malformed"); else vs_cover("too large"); }
}
ENTRY(anytext) { int n = p_range("length", 0, THOROUGH() ? 8 : 6); Char c[8]; char nm[3] = "c0"; for (int i = 0; i < n; i++) { nm[1] = (char)('0' + i); c[i] = s_char(nm); } compare(c, n); } //@ cost=2 tmo=200 ttmo=1500
// a field of k digits; 8 and 9 digits by the first position at which the number differs from the largest day count
static void dayDigits(Char *c, int &n, int k) {
  static const int MXD[8] = {1, 0, 6, 7, 5, 1, 9, 9}; char nm[3] = "a0"; if (k < 8) { for (int j = 0; j < k; j++) { nm[1] = (char)('0' + j); c[n++] = (Char)(L'0' + vs_range(nm, 0, 9)); } return; }
  int e = p_range("differs", 0, 16); if (k == 9) { int64_t z = p_range("ninth", 0, 1); if (z) { vs_assume(e == 16); nm[1] = '8'; z = vs_range(nm, 1, 9); } c[n++] = (Char)(L'0' + z); }
  int q = e / 2; for (int j = 0; j < 8; j++) { nm[1] = (char)('0' + j); int64_t d = MXD[j]; if (j == q) { int64_t lo = e & 1 ? d + 1 : 0, hi = e & 1 ? 9 : d - 1; if (lo > hi) vs_assume(false); d = lo == hi ? lo : vs_range(nm, lo, hi); } else if (j > q) d = vs_range(nm, 0, 9); c[n++] = (Char)(L'0' + d); }
}
ENTRY(fields) { //@ shards=6 cost=2 tmo=250 ttmo=1500
  int shape = p_range("shape", 0, 5 * 8 * 5 - 1); int nf = shape % 5 + 1, last = shape / 5 % 8 + 1, f0 = shape / 40; static const int D0[5] = {1, 2, 7, 8, 9}; if (nf == 1) vs_assume(last == 1); if (nf > 1 && !THOROUGH()) vs_assume(last == 1 || last == 2 || last == 7 || last == 8); Char c[40]; int n = 0; if (p_range("minus", 0, 1)) c[n++] = L'-';
  char nm[3] = "b0"; for (int i = 0; i < nf; i++) { int k = i == 0 ? D0[f0] : i == nf - 1 ? last : 2; nm[0] = (char)('a' + i); if (i == 0) dayDigits(c, n, k); else for (int j = 0; j < k; j++) { nm[1] = (char)('0' + j); c[n++] = (Char)(L'0' + vs_range(nm, 0, 9)); }
    if (i + 1 < nf) { static const char *SN[4] = {"s0", "s1", "s2", "s3"}; Char s = s_char(SN[i]); vs_assume(!isD(s)); c[n++] = s; } }
  compare(c, n); }
ENTRY(null) { TimeSpan u(77); int x = outcome([&] { TimeSpanValue::Parse(nullptr); }); vs_check(x == X_NULL, "null raises"); bool ok = true; x = outcome([&] { ok = TimeSpanValue::TryParse(nullptr, u); }); vs_check(x == X_NONE && !ok, "TryParse of null is false"); vs_cover("null"); } //@ twice=1
