// portable configuration, n-th roots near 1 with the iteration cap lowered to 3
// FLAGS: -DTHEORETICA_DISABLE_X86 -DTHEORETICA_OPTIMIZATION_NEWTON_ITER=3
#include "sym.h"
#include "core/real_analysis.h"
using namespace theoretica;
template<int N> static void root_n(real lo, real hi) {
	real x = sym_real_in("x", lo, hi);
	errno = 0;
	real y = root(x, N), p = 1;
	sym_check(!sym_isnan(y) && errno == 0, "converges");
	for (int i = 0; i < N; ++i) p = p * y;
	sym_near(p, x, 1e-5, "power of the root");
	sym_check(y > 0, "positive");
}
HARNESS(root5, "t=90", "root(x,5)^5 = x within 1e-5 for every x in [0.998, 1.002]") { root_n<5>(0.998, 1.002); }
HARNESS(root6, "t=90", "root(x,6)^6 = x within 1e-5 for every x in [0.998, 1.002]") { root_n<6>(0.998, 1.002); }
HARNESS(root_neg, "t=60", "root(x,-n) = 1/root(x,n) for n = 5 on [0.998, 1.002]") {
	real x = sym_real_in("x", 0.998, 1.002);
	sym_eq(root(x, -5), 1 / root(x, 5), "negative order");
}
HARNESS(root_odd_neg, "t=60", "root(-x,5) = -root(x,5) on [0.998, 1.002]") {
	real x = sym_real_in("x", 0.998, 1.002);
	sym_eq(root(-x, 5), -root(x, 5), "odd root of a negative number");
}
HARNESS(root7, "t=60 tier=thorough", "root(x,7)^7 = x within 1e-5 for every x in [0.998, 1.002]") { root_n<7>(0.998, 1.002); }
