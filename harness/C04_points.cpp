// C04 the transcendental functions at points of every magnitude, against tables of exact values
#ifndef SYM_PREFIX
#define SYM_PREFIX points_
#endif
#include "sym.h"
#include "core/real_analysis.h"
#include "points.h"
using namespace theoretica;
namespace th = theoretica;
#ifdef THEORETICA_DISABLE_X86
static const real LOG_TOL = 2e-8, SIN_X = 1e-15;
#else
static const real LOG_TOL = 1e-13, SIN_X = 1e-17;
#endif
static real mag(real x) { return x < 0 ? -x : x; }
static void near(real v, const point& p, real a, real r, const char* what) { real d = mag(v - p.y); sym_check(d <= a + r * mag(p.y), what); sym_check(errno == 0, "no error"); }
#define AT(T) const point& p = T[sym_choose("i", 0, N_##T - 1)]; errno = 0
HARNESS(exponentials, "mode=fp t=60 nosum=all max_values=128", "exp, expm1 and the sigmoid at points from +-1e-300 to +-700, to a relative 5e-12") {
	switch (sym_choose("f", 0, 2)) { case 0: { AT(P_EXP); near(th::exp(p.x), p, 0, 1e-12, "exp"); break; } case 1: { AT(P_EXPM1); near(th::expm1(p.x), p, 0, 5e-12, "expm1"); break; } default: { AT(P_SIGMOID); near(th::sigmoid(p.x), p, 0, 1e-12, "sigmoid"); } }
}
HARNESS(hyperbolics, "mode=fp t=60 nosum=all max_values=128", "sinh, cosh, tanh and coth at points from +-1e-300 to +-700") {
	switch (sym_choose("f", 0, 3)) { case 0: { AT(P_SINH); near(th::sinh(p.x), p, 1e-14, 1e-12, "sinh"); break; } case 1: { AT(P_COSH); near(th::cosh(p.x), p, 0, 1e-12, "cosh"); break; } case 2: { AT(P_TANH); near(th::tanh(p.x), p, 1e-13, 0, "tanh"); break; } default: { AT(P_COTH); near(th::coth(p.x), p, 1e-15 * p.y * p.y, 1e-13, "coth"); } }
}
HARNESS(inverse_hyperbolics, "mode=fp t=60 nosum=all max_values=128", "asinh, acosh and atanh at points of every magnitude; atanh is infinite at the ends") {
	switch (sym_choose("f", 0, 3)) { case 0: { AT(P_ASINH); near(th::asinh(p.x), p, LOG_TOL, 1e-14, "asinh"); break; } case 1: { AT(P_ACOSH); near(th::acosh(p.x), p, LOG_TOL, 1e-13, "acosh"); break; } case 2: { AT(P_ATANH); near(th::atanh(p.x), p, LOG_TOL, 1e-13, "atanh"); break; } default: sym_check(th::atanh(1) == inf(), "end"); sym_check(th::atanh(-1) == -inf(), "end"); }
}
HARNESS(inverse_trigonometric, "mode=fp t=60 nosum=all max_values=128", "asin, acos and atan at points of every magnitude within 5e-8") {
	switch (sym_choose("f", 0, 2)) { case 0: { AT(P_ASIN); near(th::asin(p.x), p, 5e-8, 0, "asin"); break; } case 1: { AT(P_ACOS); near(th::acos(p.x), p, 5e-8, 0, "acos"); break; } default: { AT(P_ATAN); near(th::atan(p.x), p, 5e-8, 0, "atan"); } }
}
HARNESS(trigonometric, "mode=fp t=60 nosum=all max_values=160", "sin, cos, tan, cot and sinc at points up to +-20000 and at 1e-9 to 0.1 from multiples of pi/2") {
	switch (sym_choose("f", 0, 4)) { case 0: { AT(P_SIN); near(th::sin(p.x), p, 1e-13 + SIN_X * mag(p.x), 0, "sin"); break; } case 1: { AT(P_COS); near(th::cos(p.x), p, 1e-13 + SIN_X * mag(p.x), 0, "cos"); break; } case 2: { AT(P_TAN); near(th::tan(p.x), p, (1e-13 + SIN_X * mag(p.x)) * (1 + p.y * p.y) * 2, 0, "tan"); break; } case 3: { AT(P_COT); near(th::cot(p.x), p, (1e-13 + SIN_X * mag(p.x)) * (1 + p.y * p.y) * 2, 0, "cot"); break; } default: { AT(P_SINC); near(th::sinc(p.x), p, 1e-13, 0, "sinc"); } }
}
HARNESS(logarithms, "mode=fp t=60 nosum=all max_values=128", "ln, log2 and log10 at points from 1e-100 to 1e300") {
	switch (sym_choose("f", 0, 2)) { case 0: { AT(P_LN); near(th::ln(p.x), p, LOG_TOL, 1e-14, "ln"); break; } case 1: { AT(P_LOG2); near(th::log2(p.x), p, LOG_TOL, 1e-14, "log2"); break; } default: { AT(P_LOG10); near(th::log10(p.x), p, LOG_TOL, 1e-14, "log10"); } }
}
HARNESS(powers, "mode=fp t=60 nosum=all max_values=128", "powf of bases 0.01 to 100 and exponents -10.5 to 30") {
	const point3& p = P_POWF[sym_choose("i", 0, N_P_POWF - 1)]; errno = 0; real d = th::powf(p.x, p.a) / p.y - 1; sym_check(mag(d) <= LOG_TOL * 20, "powf"); sym_check(errno == 0, "no error");
}
