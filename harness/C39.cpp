// C39 parsing of real numbers
#include "vs.h"
#include <wchar.h>
//@wrap wcstod wcstof wcstold
//@bound every text of 0..4 characters (thorough 0..9), each any code 0..0x10ffff (a zero inside a text included); every answer of the platform's conversion: any number of characters read, any value
//@assume the platform's conversion (stand-in) skips the locale's white space, reads nothing past the terminator, and gives the same answer for the same text; what number it reads from which digits is its own
static int used; static uint64_t value, valuef; static int calls; // characters of the number (0: no number)
static bool space(wchar_t c) { return (c == 32) | ((c >= 9) & (c <= 13)); }
static const wchar_t *conv(const wchar_t *s, wchar_t **end) { calls++; const wchar_t *p = s; while (space(*p)) p++; int room = 0; while (room < 12 && p[room] && !space(p[room])) room++; int c = used < room ? used : room; if (end) *end = (wchar_t *)(c ? p + c : s); return c ? p : nullptr; }
extern "C" double vsm_wcstod(const wchar_t *s, wchar_t **end) { return conv(s, end) ? bits2d(value) : 0.0; }
extern "C" float vsm_wcstof(const wchar_t *s, wchar_t **end) { return conv(s, end) ? bits2f((uint32_t)valuef) : 0.0f; }
extern "C" long double vsm_wcstold(const wchar_t *s, wchar_t **end) { return conv(s, end) ? (long double)bits2d(value) : 0.0L; }
static bool sameD(double a, double b) { return ((a != a) & (b != b)) | (d2bits(a) == d2bits(b)); }
static bool sameF(float a, float b) { return ((a != a) & (b != b)) | (f2bits(a) == f2bits(b)); }
static int want; // 1 a number, 0 not one, 2 either
static void classify(const Char *t, int n) {
  int i = 0; while (i < n && CharValue::IsWhiteSpace(t[i])) i++; int room = 0; while (i + room < n && t[i + room] && !space(t[i + room])) room++; int c = used < room ? used : room; if (!c) { want = 0; return; }
  bool bad = false, nul = false; for (int k = i + c; k < n; k++) { if (!t[k]) nul = true; else if (!CharValue::IsWhiteSpace(t[k])) bad = true; } want = bad ? 0 : nul ? 2 : 1; }
template <class V, class F> static void parse(const char *what, bool (*same)(F, F), F expect, bool null, const Char *t, int n) {
  String *s = null ? nullptr : mkString(t, n); F r = 7; int x = outcome([&] { r = V::Parse(s); }); F q = 7; bool ok = false; int y = outcome([&] { ok = V::TryParse(s, q); }); vs_check(y == X_NONE, "TryParse raises nothing");
  if (null) { vs_check(x == X_NULL || x == X_ARG, "no text is an argument error"); vs_check(!ok && same(q, (F)0), "no text is no number"); vs_cover("null"); return; }
  vs_check(ok == (x == X_NONE), "TryParse succeeds exactly when Parse returns"); if (ok) { vs_check(want != 0, "text that is not a number is refused"); vs_check(same(r, expect) && same(q, expect), "the number the platform reads"); vs_cover("number"); } else { vs_check(want != 1, "a number is read"); vs_check(x == X_FORMAT, "text that is not a number is a format error"); vs_check(same(q, (F)0), "the result is defined"); vs_cover("not a number"); }
  vs_check(isText(s, t, n), "the text is left alone"); }
ENTRY(texts) { //@ shards=8 cost=3
  int single = p_range("single", 0, 1), n = p_range("n", -1, vs_tier() ? 9 : 4); Char t[12]; for (int i = 0; i < n; i++) t[i] = (Char)vs_range("c", 0, 0x10ffff); used = p_range("read", 0, n < 0 ? 0 : n); value = s_u64("value"); valuef = s_u32("valuef"); if (n >= 0) classify(t, n);
  if (single) parse<SingleValue, Single>("single", sameF, bits2f((uint32_t)valuef), n < 0, t, n); else parse<DoubleValue, Double>("double", sameD, bits2d(value), n < 0, t, n); }
// two texts of one length in a row: the second is read on its own
ENTRY(two) { int single = p_range("single", 0, 1), n = p_range("n", 1, vs_tier() ? 8 : 5); Char t[12], w[12]; bool differ = false; for (int i = 0; i < n; i++) { t[i] = (Char)vs_range("c", 33, 126); w[i] = (Char)vs_range("d", 33, 126); differ = differ | (t[i] != w[i]); } vs_assume(differ); t[n] = w[n] = 0; //@ twice=1
  for (int k = 0; k < 2; k++) { used = k ? p_range("read", 0, n) : n; value = s_u64("value"); valuef = s_u32("valuef"); Char *c = k ? w : t; classify(c, n); if (single) parse<SingleValue, Single>("single", sameF, bits2f((uint32_t)valuef), false, c, n); else parse<DoubleValue, Double>("double", sameD, bits2d(value), false, c, n); } vs_cover("two"); }
