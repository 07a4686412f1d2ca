// C05 special functions (Gamma family)
#include "sym.h"
#include "core/special.h"
using namespace theoretica;
namespace th = theoretica;

HARNESS(gamma_int, "t=60", "gamma(k) = (k-1)! for integer k in 1..60; gamma(0u) is NaN with EDOM") {
	int k = (int) sym_choose("k", 1, 60);
	real want = 1;
	for (int i = 2; i < k; ++i) want = want * i;
	errno = 0;
	sym_eq(special::gamma((unsigned) k) / want, 1, "unsigned");
	sym_eq(special::gamma((real) k) / want, 1, "real integer argument");
	sym_check(errno == 0, "no error");
	real z = special::gamma(0u);
	sym_check(sym_isnan(z) && errno == EDOM, "gamma(0)");
}
HARNESS(half_gamma_rec, "t=60 max_values=130", "half_gamma(k) = Gamma(k/2) for k in 1..120; NaN with EDOM at 0") {
	int k = (int) sym_choose("k", 1, 120);
	real want = (k % 2) ? SQRTPI : 1.0;
	for (int j = (k % 2) ? 1 : 2; j + 2 <= k; j += 2) want = want * j / 2.0;
	errno = 0;
	sym_eq(special::half_gamma((unsigned) k) / want, 1, "half gamma");
	sym_check(errno == 0, "no error");
	real z = special::half_gamma(0);
	sym_check(sym_isnan(z) && errno == EDOM, "half_gamma(0)");
}
HARNESS(gamma_poles, "t=60", "gamma at 0, -1, ..., -8 reports EDOM and returns inf") {
	int k = (int) sym_choose("k", 0, 8);
	errno = 0;
	real g = special::gamma((real) -k);
	sym_check(g == inf() && errno == EDOM, "pole");
}
HARNESS(gamma_exp, "t=60 max_values=64", "gamma(x) = exp(lngamma(x)) for non-integer x in (0,8)") {
	real x = sym_real_in("x", 0, 8);
	int k = (int) x;
	sym_assume(x - k > 1e-12 && x - k < 1 - 1e-12);
	errno = 0;
	sym_eq(special::gamma(x), sym_exp(special::lngamma(x)), "gamma");
	sym_eq(special::pi(x), special::gamma(x + 1), "pi(x) = gamma(x+1)");
	sym_check(errno == 0, "no error");
}
HARNESS(gamma_negative, "t=60 max_values=64", "non-integer x in (-6,0): gamma(x) = exp(lngamma(x)) where Gamma > 0, and exp(lngamma(x+1))/x where Gamma < 0") {
	real x = sym_real_in("x", -6, 0);
	int k = (int) (-x);
	sym_assume(-x - k > 1e-12 && -x - k < 1 - 1e-12);
	// the sign of sin(pi x) on the strip (-k-1,-k)
	if (k % 2 == 0) { sym_assume(sym_sin(PI * x) < 0); sym_assume(sym_sin(PI * (x + 1)) > 0); }
	else sym_assume(sym_sin(PI * x) > 0);
	real g = special::gamma(x);
	sym_check(!sym_isnan(g), "defined");
	if (k % 2 == 0) sym_eq(g * x, sym_exp(special::lngamma(x + 1)), "odd strip");
	else sym_eq(g, sym_exp(special::lngamma(x)), "even strip");
	errno = 0;
	real l = special::lngamma(x);
	if (k % 2 == 0) { sym_check(sym_isnan(l) && errno == EDOM, "lngamma undefined where Gamma < 0"); }
	else sym_eq(l + special::lngamma(1 - x), sym_ln(PI / sym_sin(PI * x)), "reflection");
}
HARNESS(beta_def, "t=60 max_values=64", "beta(x,y) = exp(lngamma x + lngamma y - lngamma(x+y)), symmetric, every x, y > 0") {
	real x = sym_real("x"), y = sym_real("y");
	sym_assume(x > 0 && y > 0);
	real b = special::beta(x, y);
	sym_eq(b, sym_exp(special::lngamma(x) + special::lngamma(y) - special::lngamma(x + y)), "beta");
	sym_eq(b, special::beta(y, x), "symmetric");
}
// { x, Gamma(x), ln |Gamma(x)| } by mpmath
static const real WIDE[][3] = {
	{1e-300, 9.99999999999999975e+299, 6.90775527898213705e+2},
	{1e-100, 9.9999999999999998e+99, 2.30258509299404568e+2},
	{1e-20, 1.00000000000000005e+20, 4.60517018598809137e+1},
	{1e-16, 9.99999999999999963e+15, 3.68413614879047309e+1},
	{1e-15, 9.99999999999999345e+14, 3.45387763949106846e+1},
	{1e-12, 9.99999999999422804e+11, 2.7631021115927971e+1},
	{1e-10, 9.99999999942278397e+9, 2.30258509298827352e+1},
	{1e-08, 9.99999994227843429e+7, 1.84206807381802089e+1},
	{1e-05, 9.99994227942255595e+4, 1.15129196928958256e+1},
	{0.001, 9.99423772484595445e+2, 6.90717888538385366},
	{0.1, 9.51350769866873129, 2.2527126517342059},
	{0.5, 1.77245385090551603, 5.72364942924700087e-1},
	{0.999, 1.00057820562935865, 5.78038532891380238e-4},
	{1.0000001, 9.99999942278443367e-1, -5.7721558299185071e-8},
	{3.7, 4.17065178379660403, 1.42807232666538813},
	{12.5, 1.36843365465565857e+8, 1.87343475119364457e+1},
	{25.25, 1.38215491383739691e+24, 5.55856860448694297e+1},
	{70.125, 2.90806663395082332e+98, 2.26720827586838578e+2},
	{100.5, 9.32096310408271661e+156, 3.61435540467777622e+2},
	{150.25, 1.33215077619516348e+261, 6.01261504032499726e+2},
	{171.25, 2.6229668786787894e+307, 7.07857929622710087e+2},
	{-0.5, -3.54490770181103205, 1.2655121234846454},
	{-1e-09, -1.0000000005772156e+9, 2.07232658375236268e+1},
	{-1e-16, -1.00000000000000008e+16, 3.6841361487904731e+1},
	{-2.25, -1.74281486572825265, 5.55501545020647471e-1},
	{-3.75, 2.67866128861416603e-1, -1.31726794244636367},
	{-7.5, 2.23849328859689497e-4, -8.40453737145159754},
	{-20.125, -2.31230885250594893e-18, -4.06082851452805768e+1},
	{1000.5, 0, 5.90867417584867749e+3},
	{100000.5, 0, 1.05129346543513938e+6},
	{100000000.5, 0, 1.74206807531417508e+9},
	{1000000000000.5, 0, 2.66310211159294671e+13},
};
HARNESS(gamma_wide, "mode=fp t=60 nosum=all max_values=64", "gamma and log-gamma at arguments of every magnitude from 1e-300 to 1e12 and negative ones, against a table") {
	int i = (int) sym_choose("i", 0, 31); real x = WIDE[i][0], g = WIDE[i][1], l = WIDE[i][2], s = l < 0 ? 1 - l : 1 + l; if (g != 0) { real e = special::gamma(x) / g - 1; sym_check(e < 1E-7 && e > -1E-7, "gamma"); } if (x > 0 || g > 0) { real d = (special::lngamma(x) - l) / s; sym_check(d < 1E-8 && d > -1E-8, "log-gamma"); }
}
HARNESS(beta_wide, "mode=fp t=60 nosum=all max_values=64", "beta at integer arguments of 1..40 equals the quotient of factorials, and of small arguments 1/x + 1/y within 1e-6 relative") {
	int a = 1 + 3 * (int) sym_choose("a", 0, 13), b = 1 + 5 * (int) sym_choose("b", 0, 7); real w = 1; for (int i = 1; i < b; ++i) w = w * i / (a + i); w /= a; real e = special::beta(a, b) / w - 1; sym_check(e < 1E-8 && e > -1E-8, "beta"); real t = 1; for (int i = 0; i < a; ++i) t /= 2; if (a > 20) { real d = special::beta(t, t * b) / (1 / t + 1 / (t * b)) - 1; sym_check(d < 1E-6 && d > -1E-6, "small"); }
}
HARNESS(integer_wide, "mode=fp t=60 nosum=all max_values=64", "gamma at integers 61..171 and half_gamma of 121..342 follow the recurrence without overflow, and overflow beyond; in floating point") {
	static const int K[] = {61, 90, 99, 100, 101, 127, 128, 129, 150, 170, 171}; int k = K[sym_choose("k", 0, 10)]; real want = 1; for (int i = 2; i < k; ++i) want = want * i; real e = special::gamma((unsigned) k) / want - 1, f = special::gamma((real) k) / want - 1, g = special::half_gamma((unsigned) 2 * k) / want - 1, h = special::pi(k - 1.0) / want - 1; sym_check(e < 1E-12 && e > -1E-12 && f < 1E-12 && f > -1E-12, "gamma"); sym_check(g < 1E-12 && g > -1E-12 && h < 1E-12 && h > -1E-12, "half, pi"); real w = SQRTPI; for (int j = 1; j < 2 * k - 1; j += 2) w *= 0.5 * j; real d = special::half_gamma((unsigned) 2 * k - 1) / w - 1; sym_check(d < 1E-12 && d > -1E-12, "half-integer");
	sym_check(special::gamma(172u + k) == inf() && special::half_gamma(2 * (172 + k) + 1) == inf(), "overflow");
}
HARNESS(beta_large, "mode=fp t=60 nosum=all max_values=64", "beta at integer arguments to 1500 and 5 equals the quotient of factorials within 1e-7 relative; half-integers by the duplication of arguments; in floating point") {
	static const int A[] = {41, 100, 171, 172, 180, 300, 1000, 1500}; int a = A[sym_choose("a", 0, 7)], b = 1 + (int) sym_choose("b", 0, 4); real w = 1; for (int i = 1; i < b; ++i) w = w * i / (a + i); w /= a; real e = special::beta(a, b) / w - 1, f = special::beta(b, a) / w - 1; sym_check(e < 1E-7 && e > -1E-7 && f < 1E-7 && f > -1E-7, "beta"); real g = special::beta(a + 0.5, b + 0.25) * (a + 0.5) / (a + b + 0.75), h = special::beta(a + 1.5, b + 0.25), d = h / g - 1; sym_check(d < 1E-7 && d > -1E-7, "recurrence");
}
