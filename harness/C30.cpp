// C30 time spans from and scaled by real numbers
#include "dt.h"
//@bound every double (NaN, infinities, denormals), every 64-bit tick count
//@assume Math::Round(Double) is stood for by round-half-to-even, which C33 decides for every double
extern "C" double vsl__ZN13DotnetLibrary4Math5RoundEd(double x) { return __builtin_rint(x); }
static bool fits(double r) { return (r >= -9223372036854775808.0) & (r < 9223372036854775808.0); }
ENTRY(from) { //@ shards=5 tmo=120 twice=1
  int u = p_range("unit", 0, 4); static const double SC[5] = {864000000000.0, 36000000000.0, 600000000.0, 10000000.0, 10000.0}; double v = s_dbl("amount"); int64_t got = 0;
  int x = outcome([&] { got = (u == 0 ? TimeSpanValue::FromDays(v) : u == 1 ? TimeSpanValue::FromHours(v) : u == 2 ? TimeSpanValue::FromMinutes(v) : u == 3 ? TimeSpanValue::FromSeconds(v) : TimeSpanValue::FromMilliseconds(v)).value; });
  double p = v * SC[u]; if (v != v) { vs_check(argerr(x), "NaN raises an argument error"); vs_cover("nan"); return; }
  if (!fits(p)) { vs_check(x == X_OVERFLOW, "too large raises overflow"); vs_cover("overflow"); return; }
  vs_check(x == X_NONE, "a representable span is returned"); vs_check(got == (int64_t)p, "the product, truncated to ticks"); vs_cover("from");
}
ENTRY(scale) { //@ shards=4 tmo=200 cost=2 twice=1
  int how = p_range("how", 0, 4); int64_t t = s_i64("t"); double f = s_dbl("factor"); TimeSpan u(t); TimeSpanValue b(u); int64_t got = 0; bool div = how == 1 || how == 4;
  int x = outcome([&] { got = (how == 0 ? b.Multiply(f) : how == 1 ? b.Divide(f) : how == 2 ? TimeSpanValue::op_Multiply(u, f) : how == 3 ? TimeSpanValue::op_Multiply(f, u) : TimeSpanValue::op_Division(u, f)).value; });
  if (f != f) { vs_check(argerr(x), "NaN raises an argument error"); vs_cover("scale nan"); return; }
  double r = __builtin_rint(div ? (double)t / f : (double)t * f); if (!fits(r)) { vs_check(x == X_OVERFLOW, "too large or undefined raises overflow"); vs_cover("scale overflow"); return; }
  vs_check(x == X_NONE, "a representable span is returned"); vs_check(got == (int64_t)r, "the product rounded to the nearest tick, ties to even"); vs_cover("scaled");
}
ENTRY(ratio) { int64_t t = s_i64("t"); int64_t w = s_i64("w"); TimeSpan a(t), b(w); double q = p_range("op", 0, 1) ? TimeSpanValue::op_Division(a, b) : TimeSpanValue(a).Divide(b); double e = (double)t / (double)w; vs_check((q != q && e != e) || d2bits(q) == d2bits(e), "quotient of the tick counts"); vs_cover("ratio"); } //@ twice=1
ENTRY(ticks) { int64_t t = s_i64("t"); vs_check(TimeSpanValue::FromTicks(t).value == t, "from ticks"); vs_check(TimeSpan(t).value == t, "constructed from ticks"); vs_cover("ticks"); } //@ twice=1
