// C25 Gregorian rules
#include "dt.h"
//@bound every 32-bit year and month; every tick count of years 1..9999 for the day numberings
ENTRY(leap) { int32_t y = s_i32("y"); bool r = false; int x = outcome([&] { r = DateTimeValue::IsLeapYear(y); }); if (y < 1 || y > 9999) { vs_check(argerr(x), "year out of range raises"); vs_cover("leap refused"); } else { vs_check(x == X_NONE && r == isLeap(y), "Gregorian leap rule"); vs_cover("leap"); } } //@ twice=1
ENTRY(days) { int32_t y = s_i32("y"), m = s_i32("m"); int r = 0; int x = outcome([&] { r = DateTimeValue::DaysInMonth(y, m); }); if (y < 1 || y > 9999 || m < 1 || m > 12) { vs_check(argerr(x), "out of range raises"); vs_cover("days refused"); } else { m = (int)vs_pick(m); vs_check(x == X_NONE && r == mdays[m] + ((m == 2) & isLeap(y)), "month length"); vs_cover("days"); } } //@ twice=1
ENTRY(numbering) { Date d = any_date(); int64_t tod = vs_range("tod", 0, TPD - 1); DateTimeValue b(DateTime((UInt64)(d.dn * TPD + tod))); vs_check((int64_t)b.get_DayOfWeek() == (d.dn + 1) % 7, "day of week counts from Monday 1 January 0001"); vs_check(b.get_DayOfYear() == d.cum + d.d, "day of year"); vs_cover("numbering"); } //@ shards=4 twice=1
ENTRY(nextday) { int64_t n = vs_range("n", 0, 3652057); int64_t tod = vs_range("tod", 0, TPD - 1), tod2 = vs_range("tod2", 0, TPD - 1); int a = DateTimeValue(DateTime((UInt64)(n * TPD + tod))).get_DayOfWeek(), b = DateTimeValue(DateTime((UInt64)((n + 1) * TPD + tod2))).get_DayOfWeek(); vs_check((a == 6) ? b == 0 : b == a + 1, "the next day is the next weekday"); vs_check(a >= 0 && a <= 6, "a weekday"); vs_cover("nextday"); } //@ twice=1
