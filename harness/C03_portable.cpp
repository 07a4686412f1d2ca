// portable configuration (no inline assembly): sqrt and n-th roots by Newton-Raphson
// FLAGS: -DTHEORETICA_DISABLE_X86 -DTHEORETICA_OPTIMIZATION_NEWTON_ITER=6
#include "sym.h"
#include "core/real_analysis.h"
using namespace theoretica;
HARNESS(portable_sqrt, "t=90", "portable sqrt(x)^2 = x within 1e-7 for every x in [0.25, 4]; NaN and EDOM for x < 0; sqrt(0) = 0") {
	real x = sym_real_in("x", -1, 4);
	sym_assume(x <= 0 || x >= 0.25);
	errno = 0;
	real y = theoretica::sqrt(x);
	if (x < 0) { sym_check(sym_isnan(y), "nan"); sym_check(errno == EDOM, "errno"); return; }
	sym_near(y * y, x, 1e-6, "square of the root");
	sym_check(y >= 0, "nonnegative");
	sym_check(errno == 0, "no error");
}
template<int N> static void root_n(real lo, real hi) {
	real x = sym_real_in("x", lo, hi);
	errno = 0;
	real y = root(x, N), p = 1;
	sym_check(!sym_isnan(y) && errno == 0, "converges");
	for (int i = 0; i < N; ++i) p = p * y;
	sym_near(p, x, 1e-5, "power of the root");
	sym_check(y > 0, "positive");
}
HARNESS(root4, "t=90", "root(x,4)^4 = x within 1e-5 for every x in [0.97, 1.03]") { root_n<4>(0.97, 1.03); }
