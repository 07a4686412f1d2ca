// C04 transcendental functions: identities, quadrants, domain errors (exp, ln, atan, sin, cos as exact functions)
#include "sym.h"
#include "core/real_analysis.h"
#include "ref_tables.h"
using namespace theoretica;
namespace th = theoretica;

HARNESS(atan2_quadrants, "t=60", "atan2(y,x) is the angle of (x,y) in (-pi,pi] for every (x,y) != 0; NaN and EDOM at the origin") {
	real x = sym_real("x"), y = sym_real("y");
	errno = 0;
	real t = th::atan2(y, x);
	if (x == 0 && y == 0) { sym_check(sym_isnan(t), "nan"); sym_check(errno == EDOM, "errno"); return; }
	sym_check(errno == 0, "no error");
	if (x > 0) sym_eq(t, sym_atan(y / x), "right half plane");
	else if (x == 0) sym_eq(t, y > 0 ? PI / 2 : -PI / 2, "vertical axis");
	else if (y >= 0) sym_eq(t, sym_atan(y / x) + PI, "second quadrant");
	else sym_eq(t, sym_atan(y / x) - PI, "third quadrant");
}
HARNESS(asin_def, "t=60", "asin: atan(x/sqrt(1-x^2)) on (-1,1), +-pi/2 at +-1, NaN and EDOM outside; odd") {
	real x = sym_real("x");
	errno = 0;
	real t = th::asin(x);
	if (x > 1 || x < -1) { sym_check(sym_isnan(t), "nan"); sym_check(errno == EDOM, "errno"); return; }
	sym_check(errno == 0, "no error");
	if (x == 1) sym_near(t, PI / 2, 1e-7, "at 1");
	else if (x == -1) sym_near(t, -PI / 2, 1e-7, "at -1");
	else { sym_eq(t, sym_atan(x / sym_sqrt(1 - x * x)), "inside"); }
}
HARNESS(acos_def, "t=60", "acos: atan(sqrt(1-x^2)/x) (+pi for x < 0), pi/2 at 0, NaN and EDOM outside [-1,1]") {
	real x = sym_real("x");
	errno = 0;
	real t = th::acos(x);
	if (x > 1 || x < -1) { sym_check(sym_isnan(t), "nan"); sym_check(errno == EDOM, "errno"); return; }
	sym_check(errno == 0, "no error");
	if (x == 0) sym_near(t, PI / 2, 1e-7, "at 0");
	else if (x > 0) sym_eq(t, sym_atan(sym_sqrt(1 - x * x) / x), "positive");
	else sym_eq(t, sym_atan(sym_sqrt(1 - x * x) / x) + PI, "negative");
}
HARNESS(hyperbolic, "nosample t=60", "sinh, cosh, tanh, coth by their exponential definitions, every real x") {
	real x = sym_real("x");
	real e = sym_exp(x);
	sym_eq(th::sinh(x), (e - 1 / e) / 2, "sinh");
	sym_eq(th::cosh(x), (e + 1 / e) / 2, "cosh");
	sym_eq(th::tanh(x), (e - 1 / e) / (e + 1 / e), "tanh");
	sym_eq(th::cosh(x) * th::cosh(x) - th::sinh(x) * th::sinh(x), 1, "cosh^2 - sinh^2 = 1");
	sym_eq(th::sigmoid(x), 1 / (1 + 1 / e), "sigmoid");
	sym_assume(e != 1);
	sym_eq(th::coth(x), (e + 1 / e) / (e - 1 / e), "coth");
}
HARNESS(inverse_hyperbolic, "t=60", "asinh, acosh, atanh by their logarithmic definitions; acosh/atanh NaN and EDOM outside the domain") {
	real x = sym_real("x");
	{ real y = x < 0 ? -x : x, l = sym_ln(y + sym_sqrt(x * x + 1)); sym_eq(th::asinh(x), x < 0 ? -l : l, "asinh"); }
	errno = 0;
	real a = th::acosh(x);
	if (x < 1) { sym_check(sym_isnan(a), "acosh nan"); sym_check(errno == EDOM, "acosh errno"); }
	else { sym_eq(a, sym_ln(x + sym_sqrt(x * x - 1)), "acosh"); sym_check(errno == 0, "acosh no error"); }
}
HARNESS(atanh_def, "t=60", "atanh(x) = ln((1+x)/(1-x))/2 on (-1,1); NaN and EDOM outside [-1,1]") {
	real x = sym_real("x");
	sym_assume(x != 1 && x != -1);
	errno = 0;
	real a = th::atanh(x);
	if (x < -1 || x > 1) { sym_check(sym_isnan(a), "atanh nan"); sym_check(errno == EDOM, "atanh errno"); }
	else { sym_eq(a, sym_ln((1 + x) / (1 - x)) / 2, "atanh"); sym_check(errno == 0, "atanh no error"); }
}
HARNESS(log_x86, "t=60 nosum=all", "ln, log2, log10 are the same logarithm up to their bases (x > 0); -inf with ERANGE at 0, NaN with EDOM below") {
	real x = sym_real("x");
	real l = sym_ln(x > 0 ? x : 1);
	sym_assume(l >= -750 && l <= 750);
	errno = 0;
	int k = (int) sym_choose("f", 0, 2);
	real r = k == 0 ? th::ln(x) : k == 1 ? th::log2(x) : th::log10(x);
	if (x < 0) { sym_check(sym_isnan(r), "nan"); sym_check(errno == EDOM, "errno"); return; }
	if (x == 0) { sym_check(r == -inf(), "-inf"); sym_check(errno == ERANGE, "errno range"); return; }
	sym_check(errno == 0, "no error");
	if (k == 0) sym_near(r, l, 1e-9, "ln");
	else if (k == 1) sym_near(r * 0.6931471805599453, l, 1e-9, "log2");
	else sym_near(r * 2.302585092994046, l, 1e-9, "log10");
}
HARNESS(trig_x86, "t=60", "sin, cos, tan, cot: tan = sin/cos, cot = cos/sin; NaN with ERANGE where the denominator vanishes") {
	real x = sym_real("x");
	real s = sym_sin(x), c = sym_cos(x);
	sym_eq(th::sin(x), s, "sin");
	sym_eq(th::cos(x), c, "cos");
	sym_eq(th::sin(x) * th::sin(x) + th::cos(x) * th::cos(x), 1, "pythagoras");
	errno = 0;
	real t = th::tan(x);
	if (c == 0) { sym_check(sym_isnan(t) && errno == ERANGE, "tan pole"); }
	else if (c > 1e-12 || c < -1e-12) { sym_eq(t, s / c, "tan"); sym_check(errno == 0, "tan no error"); }
	errno = 0;
	real k = th::cot(x);
	if (s == 0) { sym_check(sym_isnan(k) && errno == ERANGE, "cot pole"); }
	else if (s > 1e-12 || s < -1e-12) { sym_eq(k, c / s, "cot"); sym_check(errno == 0, "cot no error"); }
}
HARNESS(sinc_def, "t=60", "sinc(0) = 1, sinc(x) = sin(pi x)/(pi x) elsewhere") {
	real x = sym_real("x");
	real r = sinc(x);
	if (x == 0) sym_eq(r, 1, "at 0");
	else if (x > 1e-12 || x < -1e-12) sym_eq(r * PI * x, sym_sin(PI * x), "sinc");
}
HARNESS(powf_def, "t=60", "powf(x,a) = exp(a ln x) for x > 0 and every real a") {
	real x = sym_real("x"), a = sym_real("a");
	sym_assume(x > 0);
	real r = powf(x, a);
	if (a >= 0) sym_eq(r, sym_exp(a * sym_ln(x)), "powf");
	else sym_eq(r * sym_exp(-a * sym_ln(x)), 1, "powf negative exponent");
}
HARNESS(powf_negative, "t=60", "powf(x, a) of every x < 0 is the documented exp(-a ln|x|)") {
	real x = sym_real("x"), a = sym_real("a"); sym_assume(x < 0 && a >= 0); errno = 0;
	sym_eq(powf(x, a), sym_exp(-(a * sym_ln(-x))), "powf"); sym_eq(powf(x, -a) * sym_exp(-(a * sym_ln(-x))), 1, "negative exponent"); sym_check(errno == 0, "no error");
}
HARNESS(powf_zero, "t=60", "powf(0, a): null for every a > 0, one at a = 0, infinite with ERANGE for every a < 0") {
	real a = sym_real("a"); errno = 0; real r = powf(0, a); if (a < 0) { sym_check(r > 1E300 && errno == ERANGE, "pole"); return; } sym_check(errno == 0, "no error"); sym_eq(r, a == 0 ? 1 : 0, "powf");
}
HARNESS(expm1_def, "t=60", "expm1(x): Taylor polynomial near 0 within 1e-15, exp(x) - 1 for |x| > 0.001") {
	real x = sym_real_in("x", -2, 2);
	real r = expm1(x);
	if (x > 0.001 || x < -0.001) sym_eq(r, sym_exp(x) - 1, "far");
	else sym_near(r, x * (1 + x / 2 * (1 + x / 3 * (1 + x / 4 * (1 + x / 5)))), 1e-12, "near 0");
}
static bool dbl(real a, real b) { return a - b <= 4e-16 * b && b - a <= 4e-16 * b; }
HARNESS(constants, "t=20 mode=fp", "the mathematical constants are correct to double precision") {
	sym_check(dbl(PI, 3.14159265358979323846), "PI"); sym_check(dbl(PI2, 1.57079632679489661923), "PI2"); sym_check(dbl(PI4, 0.78539816339744830962), "PI4"); sym_check(dbl(TAU, 6.28318530717958647693), "TAU"); sym_check(dbl(PIDOUBLE, 6.28318530717958647693), "PIDOUBLE"); sym_check(dbl(INVPI, 0.31830988618379067154), "INVPI"); sym_check(dbl(SQRTPI, 1.77245385090551602730), "SQRTPI"); sym_check(dbl(E, 2.71828182845904523536), "E"); sym_check(dbl(PHI, 1.61803398874989484820), "PHI"); sym_check(dbl(INVPHI, 0.61803398874989484820), "INVPHI");
	sym_check(dbl(LOG2E, 1.44269504088896340736), "LOG2E"); sym_check(dbl(LOG210, 3.32192809488736234787), "LOG210"); sym_check(dbl(LOG10E, 0.43429448190325182765), "LOG10E"); sym_check(dbl(LN2, 0.69314718055994530942), "LN2"); sym_check(dbl(LN10, 2.30258509299404568402), "LN10"); sym_check(dbl(DEG2RAD, 0.01745329251994329577), "DEG2RAD"); sym_check(dbl(RAD2DEG, 57.2957795130823208768), "RAD2DEG"); sym_check(dbl(SQRT2, 1.41421356237309504880), "SQRT2"); sym_check(dbl(INVSQR2, 0.70710678118654752440), "INVSQR2"); sym_check(dbl(SQRT3, 1.73205080756887729353), "SQRT3");
}
