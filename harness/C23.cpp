// C23 adding months and years
#include "dt.h"
//@bound every date-time as start, every date as target (both split by kind of year and month), every 32-bit number of months or years
struct Year { int64_t y; bool leap; int64_t dn; };
static Year any_year(int kase) { Year r; int64_t a = kase == 3 ? vs_range("t400", 0, 23) : vs_range("t400", 0, 24), b = kase == 3 ? 3 : vs_range("t100", 0, kase == 2 ? 2 : 3); int64_t c = kase >= 2 ? 24 : (kase == 1 ? vs_range("t4", 0, 23) : vs_range("t4", 0, 24)), d = kase ? 3 : vs_range("t1", 0, 2);
  r.leap = kase == 1 || kase == 3; r.y = 400 * a + 100 * b + 4 * c + d + 1; r.dn = 146097 * a + 36524 * b + 1461 * c + 365 * d; return r; }
ENTRY(months) { //@ shards=8 cost=4 tmo=250 ttmo=800 twice=1
  Date d = any_piece(); int m = d.m; int64_t tod = vs_range("tod", 0, TPD - 1); int t = p_few("target", 0, 47); int tm = t / 4 + 1; Year y = any_year(t & 3); int32_t add = (int32_t)(12 * (y.y - d.y) + (tm - m));
  uint64_t got = 0; int x = outcome([&] { got = DateTimeValue(DateTime((UInt64)(d.dn * TPD + tod))).AddMonths(add).value; });
  vs_check(x == X_NONE, "a representable result is returned"); if (x != X_NONE) return;
  int len = monthLen(tm, y.leap); int64_t day = d.d; if (d.d > len) { day = len; vs_cover("clamped"); }
  int64_t dn = y.dn + cumDays(tm, y.leap) + day - 1;
  vs_check((int64_t)got == dn * TPD + tod, "that many months away, same time of day, day kept or clamped"); vs_cover("months");
}
ENTRY(years) { //@ shards=4 cost=2 tmo=200 twice=1
  Date d = any_piece(); int m = d.m; int64_t tod = vs_range("tod", 0, TPD - 1); Year y = any_year((int)p_few("target", 0, 3)); int32_t add = (int32_t)(y.y - d.y);
  uint64_t got = 0; int x = outcome([&] { got = DateTimeValue(DateTime((UInt64)(d.dn * TPD + tod))).AddYears(add).value; });
  vs_check(x == X_NONE, "a representable result is returned"); if (x != X_NONE) return;
  int len = monthLen(m, y.leap); int64_t day = d.d; if (d.d > len) { day = len; vs_cover("29 February clamped"); }
  vs_check((int64_t)got == (y.dn + cumDays(m, y.leap) + day - 1) * TPD + tod, "same date in that year, 29 February clamped"); vs_cover("years");
}
// a result year below 1 or above 9999 (offsets within the documented limits)
ENTRY(outside) { //@ shards=4 cost=2 tmo=200 twice=1
  Date d = any_piece(); int m = d.m; int64_t tod = vs_range("tod", 0, TPD - 1); int t = p_few("target", 0, 12); int64_t ty = p_range("late", 0, 1) ? vs_range("after", 10000, 19999) : vs_range("before", -9999, 0); DateTimeValue b(DateTime((UInt64)(d.dn * TPD + tod)));
  if (t) { int64_t add = 12 * (ty - d.y) + (t - m); vs_assume(add >= -120000); vs_assume(add <= 120000); int x = outcome([&] { b.AddMonths((int32_t)add); }); vs_check(argerr(x), "result outside the calendar raises"); vs_cover("months outside"); }
  else { int64_t add = ty - d.y; vs_assume(add >= -10000); vs_assume(add <= 10000); int x = outcome([&] { b.AddYears((int32_t)add); }); vs_check(argerr(x), "result outside the calendar raises"); vs_cover("years outside"); }
}
ENTRY(limits) { Date d = any_date(); int64_t tod = vs_range("tod", 0, TPD - 1); DateTimeValue b(DateTime((UInt64)(d.dn * TPD + tod))); int32_t n = s_i32("n"); int yr = p_range("years", 0, 1); if (yr) vs_assume(n < -10000 || n > 10000); else vs_assume(n < -120000 || n > 120000); int x = outcome([&] { if (yr) b.AddYears(n); else b.AddMonths(n); }); vs_check(argerr(x), "offset outside the documented limits raises"); vs_cover("limits"); } //@ twice=1
ENTRY(zero) { Date d = any_piece(); int64_t tod = vs_range("tod", 0, TPD - 1); uint64_t v = (uint64_t)(d.dn * TPD + tod); DateTimeValue b((DateTime(v))); vs_check(b.AddMonths(0).value == v, "no months"); vs_check(b.get_Ticks() == (int64_t)v, "unchanged"); vs_cover("zero"); } //@ twice=1
