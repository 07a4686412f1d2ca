// C36 extreme and non-finite arguments of the elementary functions
#include "sym.h"
#include "theoretica.h"
using namespace theoretica;
namespace th = theoretica;
static real big(const char* n) { static const real v[] = {20, 300, 709, 711, 1000, 5000, 11999, 12000, 2147483647.0, 2147483648.0, 4294967296.0, 9.3E+18, 1E+100, 1E+300}; return v[sym_choose(n, 0, 13)]; }
HARNESS(exp_large, "mode=fp t=60 nosum=all", "exp overflows to infinity and underflows to zero for every |x| >= 12000, infinities included, and NaN propagates") {
	real x = sym_real("x"); sym_assume(!(x < 12000 && x > -12000)); errno = 0; real e = th::exp(x), m = th::expm1(x); if (x != x) { sym_check(e != e && m != m, "nan"); return; } if (x > 0) sym_check(e == inf() && m == inf(), "overflow"); else sym_check(e == 0 && m == -1, "underflow");
}
HARNESS(exp_range, "mode=fp t=60 nosum=all", "exp is infinite from 710 and zero from -746, finite and positive in between, on a grid of magnitudes") {
	real x = big("x"); real e = th::exp(x), f = th::exp(-x); if (x > 710) sym_check(e == inf(), "overflow"); else sym_check(e > 1 && e < inf(), "finite"); if (x > 746) sym_check(f == 0, "underflow"); else sym_check(f >= 0 && f < 1, "small");
}
HARNESS(hyperbolic_large, "mode=fp t=60 nosum=all", "tanh, coth, sinh, cosh and sigmoid reach their limits for every |x| >= 12000, infinities included, and NaN propagates") {
	real x = sym_real("x"); sym_assume(!(x < 12000 && x > -12000)); real t = th::tanh(x), c = th::coth(x), s = th::sinh(x), h = th::cosh(x), g = th::sigmoid(x); if (x != x) { sym_check(t != t && c != c && s != s && h != h && g != g, "nan"); return; } real u = x > 0 ? 1 : -1; sym_check(t == u, "tanh"); sym_check(c == u, "coth"); sym_check(s == u * inf(), "sinh"); sym_check(h == inf(), "cosh"); sym_check(g == (x > 0 ? 1 : 0), "sigmoid");
}
HARNESS(hyperbolic_range, "mode=fp t=60 nosum=all", "tanh, coth and sigmoid are within rounding of their limits from 20 on, on a grid of magnitudes and both signs") {
	real x = big("x"); if (sym_choose("s", 0, 1)) x = -x; real u = x > 0 ? 1 : -1, d = th::tanh(x) - u, e = th::coth(x) - u, f = th::sigmoid(x) - (x > 0 ? 1 : 0); sym_check(d < 1E-14 && d > -1E-14, "tanh"); sym_check(e < 1E-14 && e > -1E-14, "coth"); sym_check(f < 3E-9 && f > -3E-9, "sigmoid");
}
HARNESS(asinh_large, "mode=fp t=60 nosum=all", "asinh is odd and grows as ln(2|x|) on a grid of magnitudes up to 1e100") {
	real x = big("x"); if (x > 1E+100) return; real a = th::asinh(x), b = th::asinh(-x), w = th::ln(2 * x); sym_check(a == -b, "odd"); sym_check(a - w < 1E-3 && w - a < 1E-3, "growth");
}
#ifdef THEORETICA_DISABLE_X86
HARNESS(log_large, "mode=fp t=60 nosum=all", "log2 of the powers of two in 2^-1022..2^1023 is their exponent, infinity maps to infinity and NaN propagates, for the three logarithms") {
	int k = (int) sym_choose("k", 0, 33); real x = 1; int e = (k - 16) * 62; if (e > 992) e = 1023; if (k == 33) e = -1022; for (int i = 0; i < e; ++i) x = x * 2; for (int i = 0; i > e; --i) x = x / 2; real l = th::log2(x) - e, n = th::ln(x) - e * 0.69314718055994530942, t = th::log10(x) - e * 0.30102999566398119521; sym_check(l < 1E-12 && l > -1E-12, "log2"); sym_check(n < 1E-11 && n > -1E-11, "ln"); sym_check(t < 1E-11 && t > -1E-11, "log10"); sym_check(th::log2(inf()) == inf() && th::ln(inf()) == inf() && th::log10(inf()) == inf(), "infinity"); real a = th::ln(nan()), b = th::log2(nan()), c = th::log10(nan()); sym_check(a != a && b != b && c != c, "nan");
}
HARNESS(tan_large, "mode=fp t=60 nosum=all", "tan terminates for arguments too large to be reduced, infinities and NaN included, with NaN and EDOM") {
	static const real v[] = {6.8E+9, 1E+10, 1E+19, 1E+100, 1E+300}; int k = (int) sym_choose("k", 0, 6); real x = k < 5 ? v[k] : k == 5 ? inf() : nan(); if (sym_choose("s", 0, 1)) x = -x; errno = 0; real t = th::tan(x); sym_check(t != t, "undefined"); sym_check(errno == EDOM, "reported");
}
#endif
HARNESS(atan_large, "mode=fp t=60 nosum=all", "atan tends to +-pi/2 on a grid of magnitudes, infinities included, and NaN propagates") {
	int k = (int) sym_choose("k", 0, 2); real x = k == 0 ? big("x") : k == 1 ? inf() : nan(); if (sym_choose("s", 0, 1)) x = -x; real a = th::atan(x); if (k == 2) { sym_check(a != a, "nan"); return; } if (x >= 1E+9 || x <= -1E+9) { real d = a - (x > 0 ? PI / 2 : -PI / 2); sym_check(d < 1E-8 && d > -1E-8, "atan"); } sym_check(a < 1.5707964 && a > -1.5707964 && (x > 0) == (a > 0), "range");
}
HARNESS(roots_large, "mode=fp t=60 nosum=all", "square and cubic roots of the squares and cubes of numbers of every magnitude recover them, on a grid; infinity maps to infinity and NaN propagates") {
	static const real v[] = {3, 1E+3, 1E+6, 7E+9, 1E+20, 1E+40, 3E+60, 1E+100}; int k = (int) sym_choose("k", 0, 7); real r = v[k]; if (sym_choose("i", 0, 1)) r = 1 / r; real s = th::sqrt(r * r) / r - 1, c = th::cbrt(r * r * r) / r - 1, d = th::cbrt(-r * r * r) / r + 1; real t = k < 3 ? 1E-8 : 1E-12; sym_check(s < t && s > -t, "sqrt"); sym_check(c < t && c > -t, "cbrt"); sym_check(d < t && d > -t, "cbrt negative"); sym_check(th::sqrt(inf()) == inf() && th::cbrt(inf()) == inf() && th::cbrt(-inf()) == -inf(), "infinity"); real a = th::sqrt(nan()), b = th::cbrt(nan()); sym_check(a != a && b != b, "nan");
}
HARNESS(negative_zero, "mode=fp t=60 nosum=all", "functions at minus zero agree with those at zero: acos, asin, atan, atan2, exp, roots, powers, sine, cosine, hyperbolic, sinc, step, complex roots and arguments") {
	real z = -0.0; auto near = [](real a, real b) { return a - b < 1e-8 && b - a < 1e-8; }; sym_check(near(th::acos(z), PI / 2), "acos"); sym_check(near(th::asin(z), 0), "asin"); sym_check(near(th::atan(z), 0), "atan"); sym_check(near(th::atan2(1, z), PI / 2), "atan2"); sym_check(near(th::atan2(-1, z), -PI / 2), "atan2"); sym_check(near(th::atan2(z, 1), 0), "atan2"); sym_check(near(th::exp(z), 1), "exp"); sym_check(near(th::sqrt(z), 0), "sqrt"); sym_check(near(th::cbrt(z), 0), "cbrt"); sym_check(near(th::root(z, 5), 0), "root"); sym_check(near(th::root(z, 4), 0), "root"); sym_check(near(th::powf(z, 2.5), 0), "powf"); sym_check(near(th::pow(z, 3), 0), "pow"); sym_check(near(th::sin(z), 0), "sin"); sym_check(near(th::cos(z), 1), "cos");
#ifdef THEORETICA_DISABLE_X86
	sym_check(near(th::tan(z), 0), "tan");
#endif
	 sym_check(near(th::sinh(z), 0), "sinh"); sym_check(near(th::tanh(z), 0), "tanh"); sym_check(near(th::cosh(z), 1), "cosh"); sym_check(near(th::asinh(z), 0), "asinh"); sym_check(near(th::atanh(z), 0), "atanh"); sym_check(near(th::sinc(z), 1), "sinc"); sym_check(near(heaviside(z), 0.5), "step"); sym_check(sgn(z) == 0 && th::floor(z) == 0 && near(fract(z), 0), "sign"); sym_check(th::abs(z) == 0, "abs"); sym_check(near(sigmoid(z), 0.5), "sigmoid"); sym_check(th::ln(z) < -1e300 && th::log2(z) < -1e300 && th::log10(z) < -1e300, "ln"); complex<> c = th::sqrt(complex<>(-4, 0.0)); sym_check(near(c.Re(), 0) && near(c.Im(), 2), "complex sqrt"); sym_check(near(complex<>(z, 2).arg(), PI / 2), "argument");
}
