// FLAGS: -DTHEORETICA_DISABLE_X86
#include "sym.h"
#include "core/special.h"
#include "ref_tables.h"
using namespace theoretica;
static void lg_spec(int lo, int hi) {
	int k = (int) sym_choose("k", lo, hi);
	real x = sym_real_in("x", 1 + k / 8.0, 1 + (k + 1) / 8.0);
	real t = x - (1 + (2 * k + 1) / 16.0), ref = 0;
	for (int i = 8; i >= 0; --i) ref = ref * t + REF_LG[k][i];
	sym_near(special::lngamma(x), ref, 1e-7, "lngamma");
}
HARNESS(lngamma_1, "t=60 nosum=all", "lngamma within 1e-7 on [1,1.5]") { lg_spec(0, 3); }
HARNESS(lngamma_2, "t=60 nosum=all", "lngamma within 1e-7 on [2,2.5]") { lg_spec(8, 11); }
HARNESS(lngamma_4, "t=60 nosum=all", "lngamma within 1e-7 on [4,4.5]") { lg_spec(24, 27); }
HARNESS(lngamma_all, "t=150 nosum=all tier=thorough", "lngamma within 1e-7 on [1,5]") { lg_spec(0, 31); }
