// C24 DateTime arithmetic
#include "dt.h"
//@bound every tick count of the supported range, every 64-bit offset, every pair of date-times, every double amount (NaN, infinities and denormals included)
static bool in(int64_t t) { return (t >= 0) & (t <= MAXT); }
// exact sum in wide arithmetic
static bool sumIn(int64_t t, int64_t d, bool sub) { __int128 r = sub ? (__int128)t - d : (__int128)t + d; return (r >= 0) & (r <= MAXT); }
ENTRY(add) { //@ twice=1
  int64_t t = vs_range("t", 0, MAXT); int64_t d = s_i64("delta"); int how = p_range("how", 0, 4); DateTimeValue b(DateTime((UInt64)t)); DateTime s((UInt64)t); uint64_t got = 0; bool sub = how >= 3;
  int x = outcome([&] { got = how == 0 ? b.AddTicks(d).value : how == 1 ? b.Add(TimeSpan(d)).value : how == 2 ? DateTimeValue::op_Addition(s, TimeSpan(d)).value : how == 3 ? b.Subtract(TimeSpan(d)).value : DateTimeValue::op_Subtraction(s, TimeSpan(d)).value; });
  bool ok = sumIn(t, d, sub); if (x == X_NONE) { vs_check(in((int64_t)got), "no date-time outside the range"); vs_check(ok, "only a representable result is returned"); vs_check((int64_t)got == (sub ? t - d : t + d), "moved by exactly that many ticks"); vs_cover(sub ? "subtracted" : "added"); }
  else { vs_check(argerr(x), "argument error"); vs_check(!ok, "a representable result is returned"); vs_cover(sub ? "subtract refused" : "add refused"); }
  vs_check(b.get_Ticks() == t && s.value == (UInt64)t, "operands unchanged");
}
ENTRY(difference) { int64_t t = vs_range("t", 0, MAXT); int64_t u = vs_range("u", 0, MAXT); DateTime a((UInt64)t), c((UInt64)u); int64_t r = p_range("op", 0, 1) ? DateTimeValue::op_Subtraction(a, c).value : DateTimeValue(a).Subtract(c).value; vs_check(r == t - u, "exact difference"); vs_cover("difference"); //@ twice=1
  vs_check((int64_t)DateTimeValue(c).Add(TimeSpan(r)).value == t, "adding the difference leads back"); }
ENTRY(roundtrip) { int64_t t = vs_range("t", 0, MAXT); int64_t d = s_i64("delta"); vs_assume(sumIn(t, d, false)); DateTime m = DateTimeValue(DateTime((UInt64)t)).Add(TimeSpan(d)); vs_check((int64_t)DateTimeValue(m).Subtract(TimeSpan(d)).value == t, "adding then subtracting the same span"); vs_cover("round trip"); } //@ twice=1
// amount in units of `scale` milliseconds. The product is a double as documented; the nearest millisecond to it, halves away from zero
ENTRY(units) { //@ shards=5 cost=2 tmo=120
  static const int32_t SC[5] = {86400000, 3600000, 60000, 1000, 1}; int u = p_range("unit", 0, 4); double v = s_dbl("amount"); int64_t t = vs_range("t", 0, MAXT); DateTimeValue b(DateTime((UInt64)t)); uint64_t got = 0;
  int x = outcome([&] { got = (u == 0 ? b.AddDays(v) : u == 1 ? b.AddHours(v) : u == 2 ? b.AddMinutes(v) : u == 3 ? b.AddSeconds(v) : b.AddMilliseconds(v)).value; });
  double p = v * (double)SC[u], r = __builtin_round(p), lim = (double)(3652059LL * 86400000LL); bool small = (r > -lim) & (r < lim);
  if (!small) { vs_check(argerr(x), "amount too large or NaN raises"); vs_cover("huge"); return; }
  int64_t d = (int64_t)r * 10000; if (!sumIn(t, d, false)) { vs_check(argerr(x), "result outside the range raises"); vs_cover("outside"); return; }
  vs_check(x == X_NONE, "a representable result is returned"); vs_check((int64_t)got == t + d, "moved by the nearest number of milliseconds"); vs_cover("units");
}
