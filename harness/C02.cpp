// C02 elementary real functions, bit exact over every double
#include "sym.h"
#include "core/real_analysis.h"
#include "core/error.h"
using namespace theoretica;
static bool finite(double x) { return x - x == 0; }

HARNESS(abs_fp, "mode=fp t=60", "abs over every double: magnitude, even, NaN to NaN") {
	real x = sym_real("x");
	real a = abs(x);
	if (x != x) { sym_check(a != a, "nan"); return; }
	sym_check(a >= 0, "nonnegative");
	sym_check(a == x || a == -x, "magnitude");
	sym_check(abs(-x) == a, "even");
}
HARNESS(sgn_fp, "mode=fp t=60", "sgn over every double") {
	real x = sym_real("x");
	int s = sgn(x);
	sym_check(s == (x > 0 ? 1 : x < 0 ? -1 : 0), "sgn");
	if (x == x) sym_check(sgn(-x) == -s, "odd");
}
HARNESS(floor_fp, "mode=fp t=120", "floor(x) <= x < floor(x)+1 for every double with |x| <= 2^30") {
	real x = sym_real("x");
	sym_assume(x >= -1073741824.0 && x <= 1073741824.0);
	int n = floor(x);
	sym_check((real) n <= x, "floor <= x");
	sym_check(x < (real) n + 1.0, "x < floor + 1");
}
HARNESS(floor_real, "t=60 max_values=64", "floor(x) <= x < floor(x)+1 and fract(x) = x - floor(x) in [0,1), exact reals |x| <= 12") {
	real x = sym_real_in("x", -12, 12);
	int n = floor(x);
	sym_check((real) n <= x && x < n + 1, "floor");
	real f = fract(x);
	sym_eq(f, x - n, "fract");
	sym_check(f >= 0 && f < 1, "fract in [0,1)");
}
HARNESS(minmax_fp, "mode=fp t=60", "max, min, clamp over every pair/triple of non-NaN doubles") {
	real x = sym_real("x"), y = sym_real("y");
	sym_assume(x == x && y == y);
	real M = max(x, y), m = min(x, y);
	sym_check((M == x || M == y) && M >= x && M >= y, "max");
	sym_check((m == x || m == y) && m <= x && m <= y, "min");
	sym_check(max(y, x) == M && min(y, x) == m, "symmetric");
	real a = sym_real("a"), b = sym_real("b");
	sym_assume(a <= b);
	real c = clamp(x, a, b);
	sym_check(c >= a && c <= b, "clamp in range");
	sym_check(x < a ? c == a : x > b ? c == b : c == x, "clamp");
}
HARNESS(minmax_int, "t=60", "generic max, min, clamp over every pair/triple of 32-bit integers") {
	int x = (int) sym_u32("x"), y = (int) sym_u32("y"), a = (int) sym_u32("a"), b = (int) sym_u32("b");
	int M = theoretica::max<int>(x, y), m = theoretica::min<int>(x, y);
	sym_check((M == x || M == y) && M >= x && M >= y, "max");
	sym_check((m == x || m == y) && m <= x && m <= y, "min");
	sym_assume(a <= b);
	int c = theoretica::clamp<int>(x, a, b);
	sym_check(x < a ? c == a : x > b ? c == b : c == x, "clamp");
}
HARNESS(minmax_wide, "t=60", "generic max, min, clamp of 64-bit integers that no double can tell apart, and of every pair of them") {
	uint64_t b = (uint64_t) 1 << sym_choose("e", 53, 63);
	uint64_t x = b + (sym_u64("x") & 7), y = b + (sym_u64("y") & 7), z = b + 9;
	sym_check(theoretica::max<uint64_t>(x, y) == (x < y ? y : x), "max");
	sym_check(theoretica::min<uint64_t>(x, y) == (x < y ? x : y), "min");
	sym_check(theoretica::clamp<uint64_t>(x, y, z) == (x < y ? y : x), "clamp below");
	sym_check(theoretica::clamp<uint64_t>(x, b, y) == (x < y ? x : y), "clamp above");
	int64_t u = (int64_t) (x - 2 * b), v = (int64_t) (y - 2 * b);
	if (b >> 62) return;
	sym_check(theoretica::max<int64_t>(u, v) == (u < v ? v : u), "signed max");
	sym_check(theoretica::min<int64_t>(u, v) == (u < v ? u : v), "signed min");
}
HARNESS(heaviside_fp, "mode=fp t=60", "heaviside over every double: 1 for x >= eps, 0 for x <= -eps, 1/2 at 0") {
	real x = sym_real("x");
	real h = heaviside(x);
	if (x == 0) sym_check(h == 0.5, "at 0");
	if (x >= MACH_EPSILON) sym_check(h == 1, "positive");
	if (x <= -MACH_EPSILON) sym_check(h == 0, "negative");
}
HARNESS(square_fp, "mode=fp t=60", "square and cube are the rounded products, identity and conjugate return x") {
	real x = sym_real("x");
	sym_assume(x == x);
	sym_check(square(x) == x * x, "square");
	sym_check(identity(x) == x && conjugate(x) == x, "identity");
	if (finite(x)) sym_check(square(x) >= 0, "square nonnegative");
}
HARNESS(cube_real, "t=60", "square and cube over the reals") {
	real x = sym_real("x");
	sym_eq(square(x), x * x, "square");
	sym_eq(cube(x), x * x * x, "cube");
}
HARNESS(angles, "t=60", "radians/degrees are inverse scalings with factor pi/180") {
	real x = sym_real_in("x", -1000, 1000);
	sym_near(radians(degrees(x)), x, 1e-9, "roundtrip");
	sym_near(radians(x) * 180, x * PI, 1e-9, "factor");
	sym_near(degrees(x) * PI, x * 180, 1e-9, "factor inverse");
}
HARNESS(classify, "mode=fp t=60", "is_nan/is_inf/nan()/inf() classify every double") {
	real x = sym_real("x");
	sym_check(is_nan(x) == (x != x), "is_nan");
	sym_check(is_inf(x) == (x == x && !(x - x == 0)), "is_inf");
	sym_check(is_nan(nan()) && is_inf(inf()) && inf() > 0, "constants");
}

HARNESS(fract_fp, "mode=fp t=200 max_values=64", "fract(x) = x - floor(x) in [0, 1) at and next to integers of every magnitude up to 2^30, both signs, and fract(x) = 0 at integers") {
	static const double N[] = {0, 1, 2, 3, 7, 10, 64, 255, 256, 1000, 1023, 1024, 1025, 4096, 65535, 65536, 1000000, 16777216, 536870912, 1073741000}, F[] = {0, 1e-9, 0.001, 0.25, 0.5, 0.75, 0.999}; double n = N[sym_choose("n", 0, 19)], f = F[sym_choose("f", 0, 6)], x = n + f, y = -n - f; double r = x - n, q = y + n;
	sym_check(floor(x) == (int) n, "floor"); sym_check(fract(x) == r, "fract"); sym_check(floor(y) == (q < 0 ? -(int) n - 1 : -(int) n), "floor of the opposite"); double w = q < 0 ? y - (-n - 1) : 0; sym_check(fract(y) == w, "fract of the opposite");
}
HARNESS(large_real, "t=60 max_values=64", "floor and fract over windows of one unit around +-1000, +-4096 and +-100000, exact reals") {
	static const int N[] = {-100000, -4096, -1025, -1000, 1000, 4096, 99999}; int n = N[sym_choose("n", 0, 6)]; real x = sym_real_in("x", n - 1, n + 1); sym_assume(x > n - 1 && x < n + 1); int k = floor(x); sym_check(k == (x >= n ? n : n - 1), "floor"); sym_eq(fract(x), x - k, "fract");
}
