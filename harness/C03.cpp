// C03 powers and roots
// FLAGS: -DTHEORETICA_OPTIMIZATION_NEWTON_ITER=4
#include "sym.h"
#include "core/real_analysis.h"
#include "complex/complex.h"
using namespace theoretica;

template<typename T> static T mypow(T x, int n, T one) { T r = one; for (int i = 0; i < n; ++i) r = r * x; return r; }
HARNESS(pow_real, "t=60", "pow(x,n) = x*...*x (n factors) for every real x, n in 0..40") {
	int n = (int) sym_choose("n", 0, 40);
	real x = sym_real("x");
	sym_eq(theoretica::pow(x, n), mypow<real>(x, n, 1), "pow");
}
HARNESS(pow_real_big, "t=60", "pow(x,n) for n in {63,64,65,100,127,128,129,255,257,500}, every real x") {
	static const int ns[] = {63, 64, 65, 100, 127, 128, 129, 255, 257, 500};
	int n = ns[sym_choose("k", 0, 9)];
	real x = sym_real("x");
	sym_eq(theoretica::pow(x, n), mypow<real>(x, n, 1), "pow");
	sym_eq(theoretica::ipow(x, (unsigned) n), mypow<real>(x, n, 1), "ipow");
}
HARNESS(pow_neg, "t=60", "pow(x,-n) = 1/x^n for every real x != 0, n in 1..24") {
	int n = (int) sym_choose("n", 1, 24);
	real x = sym_real("x");
	sym_assume(x != 0);
	sym_eq(theoretica::pow(x, -n) * mypow<real>(x, n, 1), 1, "pow negative");
}
HARNESS(ipow_real, "t=60", "ipow(x,n) = x^n, every real x, n in 0..40; custom neutral element returned at n = 0") {
	int n = (int) sym_choose("n", 0, 40);
	real x = sym_real("x"), e = sym_real("e");
	sym_eq(theoretica::ipow(x, (unsigned) n), mypow<real>(x, n, 1), "ipow");
	sym_eq(theoretica::ipow(x, (unsigned) n, e), n ? mypow<real>(x, n, 1) : e, "ipow neutral");
}
HARNESS(pow_u64, "t=60", "integer powers modulo 2^64 for every 64-bit x, n in 0..12 and 2^k") {
	int n = (int) sym_choose("n", 0, 12);
	uint64_t x = sym_u64("x");
	sym_check(theoretica::pow<uint64_t>(x, n) == mypow<uint64_t>(x, n, 1), "pow u64");
	sym_check(theoretica::ipow<uint64_t>(x, n) == mypow<uint64_t>(x, n, 1), "ipow u64");
}
HARNESS(pow_complex, "t=60", "pow/ipow of a complex number, n in 0..10") {
	int n = (int) sym_choose("n", 0, 10);
	complex<real> z(sym_real("a"), sym_real("b"));
	complex<real> want = mypow<complex<real>>(z, n, complex<real>(1));
	complex<real> p = theoretica::pow(z, n), q = theoretica::ipow(z, (unsigned) n);
	sym_eq(p.Re(), want.Re(), "pow re"); sym_eq(p.Im(), want.Im(), "pow im");
	sym_eq(q.Re(), want.Re(), "ipow re"); sym_eq(q.Im(), want.Im(), "ipow im");
}
HARNESS(sqrt_real, "t=60", "sqrt(x)^2 = x, sqrt(x) >= 0 for x >= 0; NaN and EDOM for x < 0") {
	real x = sym_real("x");
	errno = 0;
	real r = theoretica::sqrt(x);
	if (x < 0) { sym_check(sym_isnan(r), "nan"); sym_check(errno == EDOM, "errno"); }
	else { sym_eq(r * r, x, "square"); sym_check(r >= 0, "nonnegative"); sym_check(errno == 0, "no error"); }
}
// Newton-Raphson with the iteration cap lowered to 4
HARNESS(cbrt_newton, "t=90", "cbrt(x)^3 = x within 1e-6 for every x in [0.8, 1.25] (Newton cap 4)") {
	real x = sym_real_in("x", 0.8, 1.25);
	real y = theoretica::cbrt(x);
	sym_near(y * y * y, x, 1e-6, "cube of the root");
}
HARNESS(cbrt_odd, "t=60", "cbrt(-x) = -cbrt(x), cbrt(0) = 0") {
	real x = sym_real_in("x", 0.9, 1.2);
	sym_eq(theoretica::cbrt(-x), -theoretica::cbrt(x), "odd");
	sym_eq(theoretica::cbrt(0), 0, "zero");
	sym_eq(theoretica::cbrt(1), 1, "one");
}
HARNESS(root_domain, "t=60", "root(x,n): n = 0 and even roots of negatives are NaN with EDOM, n = 1,2,3 and negative orders reduce to the right root") {
	int n = (int) sym_choose("n", -4, 4);
	real x = sym_real("x");
	errno = 0;
	if (n == 0 || (n % 2 == 0 && x < 0)) {
		real r = root(x, n);
		sym_check(sym_isnan(r), "nan"); sym_check(errno == EDOM, "errno");
	} else if (n == 1) { sym_eq(root(x, 1), x, "first root"); sym_check(errno == 0, "no error"); }
	else if (n == -1) { sym_assume(x != 0); sym_eq(root(x, -1) * x, 1, "minus first root"); }
	else if (n == 2) { sym_eq(root(x, 2) * root(x, 2), x, "square root"); sym_check(root(x, 2) >= 0, "nonneg"); sym_check(errno == 0, "no error"); }
	else if (n == -2) { sym_assume(x > 0); sym_eq(root(x, -2) * root(x, -2) * x, 1, "minus second root"); }
}
HARNESS(root_cube, "t=60", "root(x,3) = cbrt(x), root(x,-3) = 1/cbrt(x)") {
	real x = sym_real_in("x", 0.9, 1.2);
	sym_eq(root(x, 3), theoretica::cbrt(x), "third root");
	sym_eq(root(x, -3) * theoretica::cbrt(x), 1, "minus third root");
}
HARNESS(root_wide, "mode=fp libm t=60", "root(x, n)^n = x and root(-x, n) = -root(x, n) for odd n and root(x, -n) = 1/root(x, n) at x = 1e-12 .. 1e18 and n = 4..20, relative to x") {
	static const real X[] = {1e-12, 3e-7, 1e-6, 0.001, 0.25, 2, 7, 1000, 1e6, 3e8, 1e9, 1e12, 2e15, 1e18, 268992562}; int n = (int) sym_choose("n", 4, 20), c = (int) sym_choose("x", 0, 14); real x = X[c]; errno = 0; real y = root(x, n), p = 1; for (int i = 0; i < n; ++i) p *= y; sym_check(errno == 0, "no error"); sym_check(p <= x * (1 + 1e-7) && p >= x * (1 - 1e-7), "power"); sym_check(y > 0, "positive");
	real z = root(x, -n) * y; sym_check(z <= 1 + 1e-9 && z >= 1 - 1e-9, "negative order"); if (n % 2) { real w = root(-x, n) / y; sym_check(w <= -1 + 1e-9 && w >= -1 - 1e-9, "odd order"); }
}
