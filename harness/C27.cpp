// C27 date-time text
#include "dt.h"
//@bound every tick count: all dates (by kind of year, month and piece of the month) combined with all times of day; every buffer size 0..27 and negative sizes
// expected text by the definition: M/D/YYYY H:MM:SS AM|PM, H unpadded on the 12-hour clock (midnight shown as 0, noon as 12)
struct Out { Char c[40]; int n; };
static void num(Out &o, uint32_t v, int minDigits) { int d = v < 10 ? 1 : v < 100 ? 2 : v < 1000 ? 3 : 4; if (d < minDigits) d = minDigits; for (int i = d - 1; i >= 0; i--) { uint32_t p = i == 3 ? 1000 : i == 2 ? 100 : i == 1 ? 10 : 1; o.c[o.n++] = (Char)(L'0' + (p >= 1000 ? v / p : v / p % 10)); } }
static void put(Out &o, Char c) { o.c[o.n++] = c; }
static void expect(Out &o, uint32_t y, uint32_t m, uint32_t d, uint32_t h, uint32_t mi, uint32_t s) {
  o.n = 0; num(o, m, 1); put(o, L'/'); num(o, d, 1); put(o, L'/'); num(o, y, 1); put(o, L' '); bool pm = h >= 12; num(o, h > 12 ? h - 12 : h, 1); put(o, L':'); num(o, mi, 2); put(o, L':'); num(o, s, 2); put(o, L' '); put(o, pm ? L'P' : L'A'); put(o, L'M');
}
static void same(const Char *w, int r, Out &o) { vs_check(r == o.n, "length of the text"); bool ok = true; for (int i = 0; i < o.n; i++) ok &= w[i] == o.c[i]; vs_check(ok, "text shows exactly the calendar fields"); }
ENTRY(text) { //@ shards=8 cost=3 tmo=250
  Date d = any_piece(); int64_t h = vs_range("hour", 0, 23); int64_t mi = vs_range("minute", 0, 59), s = vs_range("second", 0, 59), sub = vs_range("sub", 0, 9999999); int64_t t = d.dn * TPD + h * 36000000000LL + mi * 600000000LL + s * 10000000LL + sub; DateTimeValue b(DateTime((UInt64)t));
  Out o; expect(o, (uint32_t)d.y, (uint32_t)d.m, (uint32_t)d.d, (uint32_t)h, (uint32_t)mi, (uint32_t)s); Char w[64]; w[31] = 0x7777; int r = 0, x = outcome([&] { r = b.FormatString(w, 32); }); vs_check(x == X_NONE, "formatting succeeds"); if (x != X_NONE) return;
  same(w, r, o); vs_check(w[31] == 0x7777 && b.get_Ticks() == t, "nothing else is touched"); vs_cover("text"); if (h == 0) vs_cover("midnight hour"); else if (h == 12) vs_cover("noon hour"); else if (h > 12) vs_cover("afternoon");
}
ENTRY(tostring) { int k = p_range("kind", 0, 3); Date d = s_date(k, 10, 0); int64_t h = vs_range("hour", 0, 23), sc = vs_range("second", 0, 59), sub = vs_range("sub", 0, 9999999), tod = h * 36000000000LL + sc * 10000000LL + sub; DateTimeValue b(DateTime((UInt64)(d.dn * TPD + tod))); Out o; expect(o, (uint32_t)d.y, (uint32_t)d.m, (uint32_t)d.d, (uint32_t)h, 0, (uint32_t)sc); String *s = b.ToString(); vs_check(s->get_Length() == o.n, "length of the text"); same(s->get_Buffer(), s->get_Length(), o); vs_cover("ToString"); }
// the shortest and the longest text and every buffer size
ENTRY(buffer) { //@ shards=4
  int size = p_range("size", -2, 27); int k = p_range("long", 0, 2); Date d = k == 0 ? s_date(0, 1, 0) : s_date(1, 12, 0); int64_t h = k == 2 ? vs_range("hour", 22, 23) : vs_range("hour", 0, 9), sc = vs_range("second", 0, 59), sub = vs_range("sub", 0, 9999999), tod = h * 36000000000LL + sc * 10000000LL + sub; DateTimeValue b(DateTime((UInt64)(d.dn * TPD + tod)));
  Char *w = (Char *)malloc(sizeof(Char) * (size > 0 ? size : 1)); w[0] = 0x7777; Out o; expect(o, (uint32_t)d.y, (uint32_t)d.m, (uint32_t)d.d, (uint32_t)h, 0, (uint32_t)sc); int r = 0, x = outcome([&] { r = b.FormatString(w, size); });
  if (size > o.n) { vs_check(x == X_NONE, "a sufficient buffer is enough"); if (x == X_NONE) same(w, r, o); vs_cover("fits"); } else { vs_check(x != X_NONE, "a buffer that is too small raises"); if (size <= 0) vs_check(w[0] == 0x7777, "nothing is written into an empty buffer"); vs_cover("too small"); }
}
