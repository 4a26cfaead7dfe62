// C22 DateTime construction and decomposition
#include "dt.h"
//@bound every tick count and every valid field combination (all years 1..9999 by kind of year and month); every 32-bit field value for rejection, every 64-bit tick count for rejection
ENTRY(compose) { //@ shards=4 cost=2 twice=1
  Date d = any_date(); Tod t = any_time(); DateTime v(d.y, d.m, d.d, t.h, t.mi, t.s, t.ms); vs_check((int64_t)v.value == d.dn * TPD + t.ticks - t.sub, "fields give the ticks of that instant"); DateTimeValue b(v);
  vs_check(b.get_Year() == d.y, "year reads back"); vs_check(b.get_Month() == d.m, "month reads back"); vs_check(b.get_Day() == d.d, "day reads back");
  vs_check(b.get_Hour() == t.h && b.get_Minute() == t.mi, "hour, minute read back"); vs_check(b.get_Second() == t.s && b.get_Millisecond() == t.ms, "second, millisecond read back"); vs_cover("compose");
}
ENTRY(decompose) { //@ shards=4 cost=2 twice=1
  Date d = any_date(); Tod t = any_time(); int64_t ticks = d.dn * TPD + t.ticks; DateTime v((UInt64)ticks); DateTimeValue b(v); vs_check(b.get_Ticks() == ticks, "ticks kept"); int32_t y = b.get_Year(), m = b.get_Month(), dd = b.get_Day();
  vs_check(y == d.y, "year"); vs_check(m == d.m, "month"); vs_check(dd == d.d, "day"); vs_check(b.get_Hour() == t.h, "hour"); vs_check(b.get_Minute() == t.mi, "minute"); vs_check(b.get_Second() == t.s, "second"); vs_check(b.get_Millisecond() == t.ms, "millisecond");
  Int32 y2 = 0, m2 = 0, d2 = 0; b.GetDatePart(y2, m2, d2); vs_check(y2 == d.y && m2 == d.m && d2 == d.d, "date parts together");
  vs_check((int64_t)b.get_Date().value == d.dn * TPD, "date part drops the time"); vs_check(b.get_TimeOfDay().value == t.ticks, "time of day"); vs_check((int64_t)b.get_AsDateTime().value == ticks, "boxing keeps the value"); vs_cover("decompose");
}
ENTRY(defaults) { Date d = any_date(); DateTime v(d.y, d.m, d.d); vs_check((int64_t)v.value == d.dn * TPD, "midnight"); DateTime w(v); vs_check(w.value == v.value, "copy"); DateTime z; vs_check(z.value == 0 && DateTimeValue().get_Ticks() == 0, "default is the first instant"); vs_check(DateTimeValue::MaxValue.value == (UInt64)MAXT && DateTimeValue::MinValue.value == 0, "extreme values"); vs_cover("defaults"); } //@ twice=1
static bool timeOk(int32_t h, int32_t mi, int32_t s, int32_t ms) { return (h >= 0) & (h <= 23) & (mi >= 0) & (mi <= 59) & (s >= 0) & (s <= 59) & (ms >= 0) & (ms <= 999); }
ENTRY(badtime) { Date d = any_date(); int32_t h = s_i32("h"), mi = s_i32("mi"), s = s_i32("s"), ms = s_i32("ms"); vs_assume(!timeOk(h, mi, s, ms)); int x = outcome([&] { DateTime v(d.y, d.m, d.d, h, mi, s, ms); }); vs_check(argerr(x), "time field outside its range raises"); vs_cover("bad time"); } //@ shards=2 twice=1
ENTRY(baddate) { //@ cost=2 twice=1
  int32_t y = s_i32("y"), m = s_i32("m"), d = s_i32("d"), h = s_i32("h"), mi = s_i32("mi"), s = s_i32("s"), ms = s_i32("ms"); bool bad = (y < 1) | (y > 9999) | (m < 1) | (m > 12) | (d < 1) | (d > 31); vs_assume(bad);
  int x = outcome([&] { DateTime v(y, m, d, h, mi, s, ms); }); vs_check(argerr(x), "date field outside its range raises"); vs_cover("bad date"); }
ENTRY(badday) { int k = p_range("kind", 0, 3), m = p_range("month", 1, 12); Date q = s_date(k, m); int32_t d = s_i32("d"); vs_assume(d > q.len || d < 1); int x = outcome([&] { DateTime v(q.y, q.m, d, 0, 0, 0, 0); }); vs_check(argerr(x), "day past the end of the month raises"); vs_cover("bad day"); } //@ shards=2 twice=1
ENTRY(badticks) { uint64_t t = s_u64("t"); uint64_t got = 0; int x = outcome([&] { DateTime v(t); got = v.value; }); if (t <= (uint64_t)MAXT) { vs_check(x == X_NONE && got == t, "ticks in range accepted"); vs_cover("ticks"); } else { vs_check(argerr(x), "ticks out of range raise"); vs_cover("bad ticks"); } } //@ twice=1
