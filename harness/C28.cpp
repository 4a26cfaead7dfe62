// C28 time span components and totals
#include "dt.h"
//@bound every 64-bit tick count (by sign, in mixed radix), every 32-bit component tuple
ENTRY(components) { //@ tmo=150 twice=1
  Span s = any_span(); TimeSpan v(s.t); TimeSpanValue b(v); vs_check(b.get_Ticks() == s.t && b.get_AsTimeSpan().value == s.t, "ticks");
  vs_check(b.get_Days() == s.sg * s.d, "days"); vs_check(b.get_Hours() == s.sg * s.h, "hours"); vs_check(b.get_Minutes() == s.sg * s.mi, "minutes"); vs_check(b.get_Seconds() == s.sg * s.s, "seconds"); vs_check(b.get_Milliseconds() == s.sg * s.ms, "milliseconds"); vs_cover(s.sg < 0 ? "negative" : "positive");
}
// the inverse: components of a span build it again, up to the sub-millisecond rest
ENTRY(inverse) { //@ tmo=150 twice=1
  Span s = any_span(); TimeSpan v(s.t); TimeSpanValue b(v); TimeSpan w(b.get_Days(), b.get_Hours(), b.get_Minutes(), b.get_Seconds(), b.get_Milliseconds()); vs_check(w.value == s.t - s.sg * s.sub, "components build the span again"); vs_cover("inverse"); }
ENTRY(build) { //@ twice=1
  int32_t d = s_i32("d"), h = s_i32("h"), mi = s_i32("mi"), s = s_i32("s"), ms = s_i32("ms"); int64_t got = 0; int x = outcome([&] { got = TimeSpan(d, h, mi, s, ms).value; });
  int64_t total = (int64_t)d * 86400000 + (int64_t)h * 3600000 + (int64_t)mi * 60000 + (int64_t)s * 1000 + ms; bool fits = (total >= -922337203685477LL) & (total <= 922337203685477LL);
  if (fits) { vs_check(x == X_NONE, "a representable sum is built"); vs_check(got == total * 10000, "sum of the components"); vs_cover("built"); } else { vs_check(argerr(x) || x == X_OVERFLOW, "a sum that does not fit raises"); vs_cover("refused"); }
}
ENTRY(build3) { int32_t h = s_i32("h"), mi = s_i32("mi"), s = s_i32("s"); int64_t got = 0; int x = outcome([&] { got = TimeSpan(h, mi, s).value; }); int64_t total = (int64_t)h * 3600 + (int64_t)mi * 60 + s; bool fits = (total >= -922337203685LL) & (total <= 922337203685LL); //@ twice=1
  if (fits) { vs_check(x == X_NONE, "a representable sum is built"); vs_check(got == total * 10000000, "sum of hours, minutes and seconds"); vs_cover("built three"); } else { vs_check(argerr(x) || x == X_OVERFLOW, "a sum that does not fit raises"); vs_cover("refused three"); } }
ENTRY(build4) { int32_t d = s_i32("d"), h = s_i32("h"), mi = s_i32("mi"), s = s_i32("s"); vs_assume(d > -100000 && d < 100000); vs_assume(h > -100000 && h < 100000); int64_t got = 0; int x = outcome([&] { got = TimeSpan(d, h, mi, s).value; }); vs_check(x == X_NONE && got == ((int64_t)d * 86400 + (int64_t)h * 3600 + (int64_t)mi * 60 + s) * 10000000, "milliseconds default to zero"); vs_cover("four"); } //@ twice=1
ENTRY(totals) { int64_t t = s_i64("t"); TimeSpanValue b((TimeSpan(t))); double v = (double)t; vs_check(d2bits(b.get_TotalDays()) == d2bits(v / 864000000000.0), "total days"); vs_check(d2bits(b.get_TotalHours()) == d2bits(v / 36000000000.0), "total hours"); vs_check(d2bits(b.get_TotalMinutes()) == d2bits(v / 600000000.0), "total minutes"); vs_check(d2bits(b.get_TotalSeconds()) == d2bits(v / 10000000.0), "total seconds"); //@ twice=1
  double ms = v / 10000.0, got = b.get_TotalMilliseconds(); if (ms > 922337203685477.0) ms = 922337203685477.0; if (ms < -922337203685477.0) ms = -922337203685477.0; vs_check(d2bits(got) == d2bits(ms), "total milliseconds, within the documented limits"); vs_cover("totals"); }
ENTRY(units) { vs_check(TimeSpanValue::TicksPerMillisecond == 10000 && TimeSpanValue::TicksPerSecond == 10000000 && TimeSpanValue::TicksPerMinute == 600000000 && TimeSpanValue::TicksPerHour == 36000000000LL && TimeSpanValue::TicksPerDay == TPD && TimeSpanValue::Zero.value == 0 && TimeSpanValue().get_Ticks() == 0, "unit constants"); vs_cover("units"); } //@ twice=1
