// x86 configuration, full iteration counts
#define SYM_PREFIX points_
#include "sym.h"
#include "core/real_analysis.h"
#include "points.h"
using namespace theoretica;
HARNESS(root_points, "mode=fp t=60 nosum=all max_values=128", "square and cubic roots of numbers from 1e-100 to 1e300 (negative ones for the cubic) within a relative 6e-9") {
	bool c = sym_choose("f", 0, 1); const point& p = c ? P_CBRT[sym_choose("i", 0, N_P_CBRT - 1)] : P_SQRT[sym_choose("i", 0, N_P_SQRT - 1)]; errno = 0; real q = (c ? theoretica::cbrt(p.x) : theoretica::sqrt(p.x)) / p.y; sym_check(q <= 1 + 6e-9 && q >= 1 - 6e-9, "root"); sym_check(errno == 0, "no error");
}
