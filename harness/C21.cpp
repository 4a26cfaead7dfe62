// C21 character classes and case mapping
#include "vs.h"
//@bound every 32-bit character code; all strings of 0..3 characters with every 32-bit index for the string/index overloads; texts of 0..3 characters for parsing
//@assume "C" locale classes (the library never calls setlocale); the model agrees with glibc on every code up to 0x10ffff
static bool in(Char c, int a, int b) { return ((uint32_t)c >= (uint32_t)a) & ((uint32_t)c <= (uint32_t)b); }
enum { kControl, kDigit, kLetter, kLetterOrDigit, kLower, kNumber, kPunct, kSep, kUpper, kWhite, kN };
static bool cls(int k, Char c) {
  switch (k) { case kControl: return CharValue::IsControl(c); case kDigit: return CharValue::IsDigit(c); case kLetter: return CharValue::IsLetter(c); case kLetterOrDigit: return CharValue::IsLetterOrDigit(c); case kLower: return CharValue::IsLower(c); case kNumber: return CharValue::IsNumber(c); case kPunct: return CharValue::IsPunctuation(c); case kSep: return CharValue::IsSeparator(c); case kUpper: return CharValue::IsUpper(c); default: return CharValue::IsWhiteSpace(c); } }
static bool clsAt(int k, String *s, Int32 i) {
  switch (k) { case kControl: return CharValue::IsControl(s, i); case kDigit: return CharValue::IsDigit(s, i); case kLetter: return CharValue::IsLetter(s, i); case kLetterOrDigit: return CharValue::IsLetterOrDigit(s, i); case kLower: return CharValue::IsLower(s, i); case kNumber: return CharValue::IsNumber(s, i); case kPunct: return CharValue::IsPunctuation(s, i); case kSep: return CharValue::IsSeparator(s, i); case kUpper: return CharValue::IsUpper(s, i); default: return CharValue::IsWhiteSpace(s, i); } }
ENTRY(classes) { //@ twice=1
  Char c = (Char)s_u32("c"); bool ct = cls(kControl, c), d = cls(kDigit, c), l = cls(kLetter, c), ld = cls(kLetterOrDigit, c), lo = cls(kLower, c), nu = cls(kNumber, c), p = cls(kPunct, c), se = cls(kSep, c), up = cls(kUpper, c), w = cls(kWhite, c); bool ascii = in(c, 0, 127);
  vs_check(ld == (l | d), "letter-or-digit"); vs_check(nu == d, "number is digit"); vs_check(!(up & lo), "upper and lower are disjoint"); vs_check(!(up | lo) | l, "cased characters are letters"); vs_check(!(d & l) & !(ld & p) & !(ld & w) & !(ld & ct) & !(p & ct) & !(p & w), "classes are disjoint"); vs_check(se == w, "separator is white space");
  if (ascii) { vs_check(d == in(c, '0', '9'), "digits"); vs_check(up == in(c, 'A', 'Z') & lo == in(c, 'a', 'z') & l == (up | lo), "ASCII letters have a case"); vs_check(w == (in(c, 9, 13) | (c == 32)), "white space"); vs_check(ct == (in(c, 0, 31) | (c == 127)), "control"); vs_check(p == (in(c, 33, 126) & !ld), "punctuation"); vs_check(ct | ld | p | (c == 32), "every ASCII code has a class"); vs_cover("ascii"); }
  else vs_cover("other");
}
ENTRY(casemap) { //@ twice=1
  Char c = (Char)s_u32("c"), u = CharValue::ToUpper(c), l = CharValue::ToLower(c); if (CharValue::IsLower(c)) { vs_check(u != c && CharValue::IsUpper(u) && CharValue::ToLower(u) == c && l == c, "lower-case letter"); vs_cover("lower"); } else if (CharValue::IsUpper(c)) { vs_check(l != c && CharValue::IsLower(l) && CharValue::ToUpper(l) == c && u == c, "upper-case letter"); vs_cover("upper"); } else { vs_check(u == c && l == c, "nothing else is mapped"); vs_cover("none"); }
  if (in(c, 'a', 'z')) vs_check(u == c - 32, "ASCII mapping");
}
ENTRY(numeric) { Char c = (Char)s_u32("c"); double v = CharValue::GetNumericValue(c); if (in(c, '0', '9')) { vs_check(v == (double)(c - '0'), "value of a digit"); vs_cover("digit"); } else { vs_check(v == -1.0, "no numeric value"); vs_cover("no digit"); } } //@ twice=1
ENTRY(indexed) { //@ shards=2 twice=1
  int k = p_range("class", 0, kN); int n = p_range("n", 0, 3); Char c[4]; for (int i = 0; i < n; i++) c[i] = (Char)vs_range("c", 0, 0x10ffff); String *s = mkString(c, n); int i = s_i32("i"); bool r = false; double v = 0; int x = outcome([&] { if (k == kN) v = CharValue::GetNumericValue(s, i); else r = clsAt(k, s, i); });
  if (i < 0 || i >= n) { vs_check(x == X_RANGE || x == X_INDEX, "index outside the text raises"); vs_cover("outside"); return; } i = (int)vs_pick(i); vs_check(x == X_NONE, "index inside"); if (k == kN) vs_check(v == CharValue::GetNumericValue(c[i]), "agrees with the character"); else vs_check(r == cls(k, c[i]), "agrees with the character"); vs_cover("inside");
}
ENTRY(indexed_null) { int k = p_range("class", 0, kN); int i = s_i32("i"); int x = outcome([&] { if (k == kN) CharValue::GetNumericValue(nullptr, i); else clsAt(k, nullptr, i); }); vs_check(x == X_NULL, "null text raises"); vs_cover("null"); } //@ twice=1
ENTRY(text) { //@ twice=1
  Char c = (Char)vs_range("c", 1, 0x10ffff); CharValue v(c); vs_check(isText(v.ToString(), &c, 1) && isText(CharValue::ToString(c), &c, 1), "text is the character"); Char w[4] = {7, 7, 7, 7}; int z = p_range("size", -1, 3); int r = 0; int x = outcome([&] { r = v.FormatString(w, z); }); if (z >= 2) { vs_check(x == X_NONE && r == 1 && w[0] == c, "formatted"); vs_cover("formatted"); } else vs_check((x == X_INDEX || r == 1) && (z > 0 || w[0] == 7), "too small"); vs_check(w[2] == 7 && w[3] == 7, "nothing past the text");
  vs_check(CharValue::Parse(v.ToString()) == c, "text parses back"); vs_check(CharValue::MaxValue == 0xffff && CharValue::MinValue == 0, "limits");
}
ENTRY(parse) { int n = p_range("n", 0, 3); Char c[4]; for (int i = 0; i < n; i++) c[i] = (Char)vs_range("c", 0, 0x10ffff); String *s = mkString(c, n); Char r = 9, q = 9; bool ok = false; int x = outcome([&] { r = CharValue::Parse(s); }); int y = outcome([&] { ok = CharValue::TryParse(s, q); }); vs_check(y == X_NONE, "TryParse does not raise"); if (n == 1) { vs_check(x == X_NONE && r == c[0] && ok && q == c[0], "one character"); vs_cover("one"); } else { vs_check(x == X_FORMAT && !ok && q == 0, "anything else"); vs_cover("not one"); } vs_check(outcome([&] { CharValue::Parse(nullptr); }) == X_NULL, "null"); q = 9; vs_check(!CharValue::TryParse(nullptr, q) && q == 0, "TryParse(null)"); } //@ twice=1
