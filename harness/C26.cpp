// C26 comparisons of date-times and time spans
#include "dt.h"
//@bound every pair of tick counts (date-times within the supported range, spans of all 64 bits)
static int sgn(int x) { return (x > 0) - (x < 0); }
ENTRY(dates) { //@ twice=1
  int64_t t = vs_range("t", 0, MAXT); int64_t u = vs_range("u", 0, MAXT); DateTime a((UInt64)t), b((UInt64)u); DateTimeValue v(a); DateTimeValue w(b); int c = (t > u) - (t < u);
  vs_check(sgn(DateTimeValue::Compare(a, b)) == c, "Compare"); vs_check(sgn(v.CompareTo(b)) == c, "CompareTo"); vs_check(sgn(v.CompareTo((Object*)&w)) == c, "CompareTo boxed");
  vs_check(v.Equals(b) == (t == u), "Equals"); vs_check(DateTimeValue::Equals(a, b) == (t == u), "static Equals"); vs_check(v.Equals((Object*)&w) == (t == u), "Equals boxed");
  vs_check(DateTimeValue::op_Equality(a, b) == (t == u), "=="); vs_check(DateTimeValue::op_Inequality(a, b) == (t != u), "!="); vs_check(DateTimeValue::op_LessThan(a, b) == (t < u), "<"); vs_check(DateTimeValue::op_LessThanOrEqual(a, b) == (t <= u), "<=");
  vs_check(DateTimeValue::op_GreaterThan(a, b) == (t > u), ">"); vs_check(DateTimeValue::op_GreaterThanOrEqual(a, b) == (t >= u), ">="); vs_cover("dates");
}
ENTRY(spans) { //@ twice=1
  int64_t t = s_i64("t"); int64_t u = s_i64("u"); TimeSpan a(t), b(u); TimeSpanValue v(a); TimeSpanValue w(b); int c = (t > u) - (t < u);
  vs_check(sgn(TimeSpanValue::Compare(a, b)) == c, "Compare"); vs_check(sgn(v.CompareTo(b)) == c, "CompareTo"); vs_check(sgn(v.CompareTo((Object*)&w)) == c, "CompareTo boxed");
  vs_check(v.Equals(b) == (t == u), "Equals"); vs_check(TimeSpanValue::Equals(a, b) == (t == u), "static Equals"); vs_check(v.Equals((Object*)&w) == (t == u), "Equals boxed");
  vs_check(TimeSpanValue::op_Equality(a, b) == (t == u), "=="); vs_check(TimeSpanValue::op_Inequality(a, b) == (t != u), "!="); vs_check(TimeSpanValue::op_LessThan(a, b) == (t < u), "<"); vs_check(TimeSpanValue::op_LessThanOrEqual(a, b) == (t <= u), "<=");
  vs_check(TimeSpanValue::op_GreaterThan(a, b) == (t > u), ">"); vs_check(TimeSpanValue::op_GreaterThanOrEqual(a, b) == (t >= u), ">="); vs_cover("spans");
}
// null and objects of another kind
ENTRY(foreign) { //@ twice=1
  int64_t t = vs_range("t", 0, MAXT); int64_t u = s_i64("u"); DateTimeValue v(DateTime((UInt64)t)); TimeSpanValue w((TimeSpan(u))); Int64Value n(t); Object* others[4] = {nullptr, &n, &w, &v}; int k = p_range("other", 0, 3); Object* o = others[k];
  int r = 0, x = outcome([&] { r = v.CompareTo(o); }); vs_check(k == 0 ? x == X_NONE && r == 1 : k == 3 ? x == X_NONE && r == 0 : argerr(x), "date-time compared with null, a foreign object or itself"); if (k != 3) vs_check(!v.Equals(o), "date-time equals no foreign object");
  r = 0; x = outcome([&] { r = w.CompareTo(o); }); vs_check(k == 0 ? x == X_NONE && r == 1 : k == 2 ? x == X_NONE && r == 0 : argerr(x), "time span compared with null, a foreign object or itself"); if (k != 2) vs_check(!w.Equals(o), "time span equals no foreign object"); vs_cover("foreign");
}
