// C40 transcendental functions
#include "vs.h"
#include <math.h>
//@bound every double argument (NaN with any payload, signed zeros, infinities, denormals)
//@assume the platform's libm functions are uninterpreted: the same function of the same arguments has the same result, and nothing else is known of it (a counterexample is computed with the real libm)
static bool sameD(double a, double b) { return ((a != a) & (b != b)) | (d2bits(a) == d2bits(b)); }
#define U(f, g) { double r = 0; int x = outcome([&] { r = Math::f(v); }); vs_check(x == X_NONE, #f " raises nothing"); vs_check(sameD(r, g(v)), #f " is the platform's"); }
ENTRY(unary) { double v = s_dbl("v"); U(Acos, acos) U(Acosh, acosh) U(Asin, asin) U(Asinh, asinh) U(Atan, atan) U(Atanh, atanh) U(Cbrt, cbrt) U(Cos, cos) U(Cosh, cosh) U(Exp, exp) U(Log, log) U(Log10, log10) U(Log2, log2) U(Sin, sin) U(Sinh, sinh) U(Tan, tan) U(Tanh, tanh) U(Sqrt, sqrt) vs_cover("unary"); } //@ twice=1
#define B(f, g) { double r = 0; int x = outcome([&] { r = Math::f(a, b); }); vs_check(x == X_NONE, #f " raises nothing"); vs_check(sameD(r, g(a, b)), #f " is the platform's"); }
ENTRY(binary) { double a = s_dbl("a"), b = s_dbl("b"); B(Atan2, atan2) B(Pow, pow) B(IEEERemainder, remainder) vs_cover("binary"); } //@ twice=1
// logarithm to a base: no base 1, no base 0 or infinity but for 1; else the quotient
ENTRY(logbase) { double a = s_dbl("a"), b = s_dbl("b"), r = 0; int x = outcome([&] { r = Math::Log(a, b); }); vs_check(x == X_NONE, "Log raises nothing"); bool nan = (a != a) | (b != b) | (b == 1) | ((a != 1) & ((b == 0) | (b == __builtin_inf()))); //@ twice=1
  if (nan) { vs_check(r != r, "no such logarithm"); vs_cover("nan"); } else { vs_check(sameD(r, log(a) / log(b)), "quotient of logarithms"); vs_cover("quotient"); } }
ENTRY(constants) { vs_check(d2bits(Math::PI) == 0x400921fb54442d18ull, "pi"); vs_check(d2bits(Math::E) == 0x4005bf0a8b145769ull, "e"); vs_cover("constants"); } //@ twice=1
