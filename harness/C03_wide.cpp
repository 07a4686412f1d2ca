// portable configuration (no inline assembly), full iteration counts
// FLAGS: -DTHEORETICA_DISABLE_X86
#define SYM_PREFIX portable_
#include "sym.h"
#include "core/real_analysis.h"
#include "points.h"
using namespace theoretica;
HARNESS(root_wide, "mode=fp libm t=60", "root(x, n)^n = x and root(-x, n) = -root(x, n) for odd n and root(x, -n) = 1/root(x, n) at x = 1e-12 .. 1e18 and n = 4..20, relative to x") {
	static const real X[] = {1e-12, 3e-7, 1e-6, 0.001, 0.25, 2, 7, 1000, 1e6, 3e8, 1e9, 1e12, 2e15, 1e18, 268992562}; int n = (int) sym_choose("n", 4, 20), c = (int) sym_choose("x", 0, 14); real x = X[c]; errno = 0; real y = root(x, n), p = 1; for (int i = 0; i < n; ++i) p *= y; sym_check(errno == 0, "no error"); sym_check(p <= x * (1 + 1e-7) && p >= x * (1 - 1e-7), "power"); sym_check(y > 0, "positive");
	real z = root(x, -n) * y; sym_check(z <= 1 + 1e-9 && z >= 1 - 1e-9, "negative order"); if (n % 2) { real w = root(-x, n) / y; sym_check(w <= -1 + 1e-9 && w >= -1 - 1e-9, "odd order"); }
}
HARNESS(root_points, "mode=fp t=60 nosum=all max_values=128", "square and cubic roots of numbers from 1e-100 to 1e300 (negative ones for the cubic) within a relative 6e-9") {
	bool c = sym_choose("f", 0, 1); const point& p = c ? P_CBRT[sym_choose("i", 0, N_P_CBRT - 1)] : P_SQRT[sym_choose("i", 0, N_P_SQRT - 1)]; errno = 0; real q = (c ? theoretica::cbrt(p.x) : theoretica::sqrt(p.x)) / p.y; sym_check(q <= 1 + 6e-9 && q >= 1 - 6e-9, "root"); sym_check(errno == 0, "no error");
}
