// accuracy of the portable implementations over whole intervals, against Taylor expansions on cells
// (centre values in ref_tables.h are correctly rounded; the cell expansions are within 1e-9 of the exact function)
// FLAGS: -DTHEORETICA_DISABLE_X86
#include "sym.h"
#include "core/real_analysis.h"
#include "ref_tables.h"
using namespace theoretica;
namespace th = theoretica;
static real cell(int k) {  // x in [k/8, (k+1)/8]
	return sym_real_in("x", k / 8.0, (k + 1) / 8.0);
}
static real ref_exp(real x, int k) { real t = x - (2 * k + 1) / 16.0; return REF_EXP[k + 64] * (1 + t * (1 + t / 2 * (1 + t / 3 * (1 + t / 4 * (1 + t / 5))))); }
static real ref_sin(real x, int k) {
	real t = x - (2 * k + 1) / 16.0, q = t * t;
	return REF_SIN[k + 64] * (1 - q / 2 * (1 - q / 12 * (1 - q / 30))) + REF_COS[k + 64] * t * (1 - q / 6 * (1 - q / 20));
}
static real ref_cos(real x, int k) {
	real t = x - (2 * k + 1) / 16.0, q = t * t;
	return REF_COS[k + 64] * (1 - q / 2 * (1 - q / 12 * (1 - q / 30))) - REF_SIN[k + 64] * t * (1 - q / 6 * (1 - q / 20));
}
static void exp_spec(int lo, int hi) {
	int k = (int) sym_choose("k", lo, hi);
	real x = cell(k);
	sym_near(th::exp(x) / REF_EXP[k + 64], ref_exp(x, k) / REF_EXP[k + 64], 2e-8, "exp");
}
HARNESS(exp_neg, "t=60 nosum=all", "exp within 2e-8 (relative) on [-4,0]") { exp_spec(-32, -1); }
HARNESS(exp_pos, "t=60 nosum=all", "exp within 2e-8 (relative) on [0,4]") { exp_spec(0, 31); }
HARNESS(exp_far, "t=150 nosum=all tier=thorough", "exp within 2e-8 (relative) on [4,8] and [-8,-4]") { if (sym_choose("s", 0, 1)) exp_spec(32, 63); else exp_spec(-64, -33); }
static void sin_spec(int lo, int hi) {
	int k = (int) sym_choose("k", lo, hi);
	real x = cell(k);
	sym_near(th::sin(x), ref_sin(x, k), 2e-8, "sin");
	sym_near(th::cos(x), ref_cos(x, k), 2e-8, "cos");
}
HARNESS(sin_0, "t=60 nosum=all", "portable sin and cos within 2e-8 on [0,4]") { sin_spec(0, 31); }
HARNESS(sin_1, "t=60 nosum=all", "portable sin and cos within 2e-8 on [-4,0]") { sin_spec(-32, -1); }
HARNESS(sin_2, "t=60 nosum=all", "portable sin and cos within 2e-8 on [4,8]") { sin_spec(32, 63); }
HARNESS(sin_3, "t=60 nosum=all", "portable sin and cos within 2e-8 on [-8,-4]") { sin_spec(-64, -33); }
HARNESS(atan_in, "t=60 nosum=all", "atan within 5e-8 on [-1,1]") {
	int k = (int) sym_choose("k", 0, 7);
	int s = (int) sym_choose("s", 0, 1);
	real u = sym_real_in("x", k / 8.0, (k + 1) / 8.0);
	real c = (2 * k + 1) / 16.0, t = (u - c) / (1 + c * u), q = t * t;
	real ref = REF_ATAN[k] + t * (1 - q / 3 + q * q / 5);
	sym_near(th::atan(s ? -u : u), s ? -ref : ref, 5e-8, "atan");
}
HARNESS(atan_out, "t=60 nosum=all", "atan within 5e-8 for |x| > 1 (x = 1/u, u in (0,1))") {
	int k = (int) sym_choose("k", 0, 7);
	int s = (int) sym_choose("s", 0, 1);
	real u = sym_real_in("u", k / 8.0, (k + 1) / 8.0);
	sym_assume(u > 0 && u < 1);
	real c = (2 * k + 1) / 16.0, t = (u - c) / (1 + c * u), q = t * t;
	real ref = PI / 2 - (REF_ATAN[k] + t * (1 - q / 3 + q * q / 5));
	sym_near(th::atan(s ? -1 / u : 1 / u), s ? -ref : ref, 5e-8, "atan");
}
static void log_spec(int lo, int hi) {
	int e = (int) sym_choose("e", lo, hi), k = (int) sym_choose("k", 0, 7);
	real sc = 1;
	for (int i = 0; i < e; ++i) sc = sc * 2;
	for (int i = 0; i > e; --i) sc = sc / 2;
	real m = sym_real_in("x", 1 + k / 8.0, 1 + (k + 1) / 8.0);
	real c = 1 + (2 * k + 1) / 16.0, t = (m - c) / c;
	real ref = REF_LN[k] + e * REF_LN2 + t * (1 - t / 2 + t * t / 3 - t * t * t / 4 + t * t * t * t / 5 - t * t * t * t * t / 6);
	real x = m * sc;
	sym_near(th::ln(x), ref, 2e-8, "ln");
	sym_near(th::log2(x) * 0.6931471805599453, ref, 2e-8, "log2");
	sym_near(th::log10(x) * 2.302585092994046, ref, 2e-8, "log10");
}
HARNESS(log_mid, "t=60 nosum=all", "portable ln, log2, log10 within 2e-8 on [1/16, 16]") { log_spec(-4, 3); }
HARNESS(log_far, "t=60 nosum=all", "portable ln, log2, log10 within 2e-8 on [2^30,2^33] and [2^-33,2^-30]") { if (sym_choose("s", 0, 1)) log_spec(30, 32); else log_spec(-33, -31); }
HARNESS(log_domain, "t=60 nosum=all", "portable logarithms: -inf with ERANGE at 0, NaN with EDOM below") {
	real x = sym_real_in("x", -1000, 0);
	errno = 0;
	int k = (int) sym_choose("f", 0, 2);
	real r = k == 0 ? th::ln(x) : k == 1 ? th::log2(x) : th::log10(x);
	if (x < 0) { sym_check(sym_isnan(r), "nan"); sym_check(errno == EDOM, "errno"); }
	else { sym_check(r == -inf(), "-inf"); sym_check(errno == ERANGE, "errno range"); }
}
HARNESS(tan_near, "t=60 nosum=all", "portable tan(x) cos(x) = sin(x) within 1e-7 on [-0.75,0.75]") {
	int k = (int) sym_choose("k", -6, 5);
	real x = cell(k);
	sym_near(th::tan(x) * ref_cos(x, k), ref_sin(x, k), 1e-7, "tan");
}
HARNESS(tan_mid, "t=60 nosum=all", "portable tan(x) cos(x) = sin(x) within 1e-7 on [0.875,1.5] and [-1.5,-0.875]") {
	int k = (int) sym_choose("k", 7, 11);
	int s = (int) sym_choose("s", 0, 1);
	real x = cell(k);
	sym_near((s ? -th::tan(-x) : th::tan(x)) * ref_cos(x, k), ref_sin(x, k), 1e-7, "tan");
}
HARNESS(tan_far, "t=60 nosum=all", "portable tan(x) cos(x) = sin(x) within 1e-7 on [3.25,3.875]") {
	int k = (int) sym_choose("k", 26, 30);
	real x = cell(k);
	sym_near(th::tan(x) * ref_cos(x, k), ref_sin(x, k), 1e-7, "tan");
}
HARNESS(cot_cells, "t=60 nosum=all", "portable cot(x) sin(x) = cos(x) within 1e-7 on [0.125,3]") {
	int k = (int) sym_choose("k", 1, 23);
	real x = cell(k);
	sym_near(th::cot(x) * ref_sin(x, k), ref_cos(x, k), 1e-7, "cot");
}
