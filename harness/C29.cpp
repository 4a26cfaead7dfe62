// C29 time span addition, subtraction, negation, absolute value
#include "dt.h"
//@bound every pair of 64-bit tick counts
static bool fits(__int128 v) { return (v >= INT64_MIN) & (v <= INT64_MAX); }
ENTRY(sum) { //@ twice=1
  int64_t a = s_i64("a"); int64_t b = s_i64("b"); int how = p_range("how", 0, 3); TimeSpan u(a), v(b); TimeSpanValue w(u); int64_t got = 0;
  int x = outcome([&] { got = (how == 0 ? w.Add(v) : how == 1 ? TimeSpanValue::op_Addition(u, v) : how == 2 ? w.Subtract(v) : TimeSpanValue::op_Subtraction(u, v)).value; });
  __int128 r = how < 2 ? (__int128)a + b : (__int128)a - b; bool ok = fits(r); if (ok) { vs_check(x == X_NONE, "a representable result is returned"); vs_check(x != X_NONE || got == (int64_t)r, "exact result"); vs_cover(how < 2 ? "sum" : "difference"); } else { vs_check(x == X_OVERFLOW, "an unrepresentable result raises overflow"); vs_cover(how < 2 ? "sum overflow" : "difference overflow"); }
  vs_check(w.get_Ticks() == a && u.value == a && v.value == b, "operands unchanged");
}
ENTRY(sign) { //@ twice=1
  int64_t a = s_i64("a"); int how = p_range("how", 0, 2); TimeSpan u(a); TimeSpanValue w(u); int64_t got = 0; int x = outcome([&] { got = (how == 0 ? w.Negate() : how == 1 ? TimeSpanValue::op_UnaryNegation(u) : w.Duration()).value; });
  if (a == INT64_MIN) { vs_check(x == X_OVERFLOW, "the smallest span has no opposite"); vs_cover("smallest"); } else { vs_check(x == X_NONE, "a representable result is returned"); if (x == X_NONE) vs_check(got == (how == 2 && a > 0 ? a : -a), "exact result"); vs_cover("sign"); }
  vs_check(TimeSpanValue::op_UnaryPlus(u).value == a, "unary plus"); vs_check(w.get_Ticks() == a, "operand unchanged");
}
ENTRY(limits) { vs_check(TimeSpanValue::MaxValue.value == INT64_MAX, "largest span"); vs_check(TimeSpanValue::MinValue.value == INT64_MIN, "smallest span"); vs_cover("limits"); } //@ twice=1
