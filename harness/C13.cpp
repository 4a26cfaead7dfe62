// C13 Boolean parse/format
#include "vs.h"
//@bound every text of 0..6 characters (thorough 0..7), each any code 0..0x10ffff; both values
//@assume "C" locale case folding (modelled)
static bool isWord(const Char *t, int n, const char *w, int k) { if (n != k) return false; bool r = true; for (int i = 0; i < n; i++) r = r & ((t[i] == w[i]) | (t[i] == w[i] - 32)); return r; }
ENTRY(parse) { //@ shards=3 tshards=8 twice=1
  int n = p_range("n", 0, THOROUGH() ? 7 : 6); Char t[8]; for (int i = 0; i < n; i++) t[i] = s_char("t"); String *s = mkString(t, n); Boolean r = false;
  int x = outcome([&] { r = BooleanValue::Parse(s); }); bool T = isWord(t, n, "true", 4), F = isWord(t, n, "false", 5);
  if (T) { vs_check(x == X_NONE && r, "the word true"); vs_cover("true"); } else if (F) { vs_check(x == X_NONE && !r, "the word false"); vs_cover("false"); } else { vs_check(x == X_FORMAT, "any other text is a format error"); vs_cover("other"); }
  vs_check(isText(s, t, n), "text unchanged");
}
ENTRY(format) { //@ twice=1
  bool v = s_bool("v"); BooleanValue b(v); String *s = b.ToString(); static const Char T[] = L"True", F[] = L"False"; vs_check(v ? isText(s, T, 4) : isText(s, F, 5), "True or False"); vs_check(BooleanValue::Parse(s) == v, "parses back"); vs_cover("format");
  vs_check(isText(v ? BooleanValue::TrueString : BooleanValue::FalseString, v ? T : F, v ? 4 : 5), "constants");
}
ENTRY(buffers) { // text into caller memory of every size //@ twice=1
  bool v = s_bool("v"); BooleanValue b(v); int n = p_range("size", 0, 8); Char *w = (Char *)malloc(sizeof(Char) * (n ? n : 1)); if (!n) w[0] = 7; static const Char T[] = L"True", F[] = L"False"; const Char *e = v ? T : F; int len = v ? 4 : 5; Int32 r = 0; int x = outcome([&] { r = b.FormatString(w, n); });
  if (x == X_NONE && n > len) { vs_check(r == len && eqChars(w, e, len + 1), "whole text"); vs_cover("fits"); } else if (n > 0) { if (x == X_NONE) vs_check(eqChars(w, e, n - 1), "leading part"); vs_cover("too small"); } else vs_check(w[0] == 7, "nothing written"); free(w);
}
ENTRY(nulls) { int x = outcome([&] { BooleanValue::Parse(nullptr); }); vs_check(x == X_ARG || x == X_NULL || x == X_RANGE, "null is an argument error"); vs_cover("null"); } //@ twice=1
