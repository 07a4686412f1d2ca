// C29 descriptive statistics
#include "sym.h"
#include <vector>
#include "theoretica.h"
using namespace theoretica;
namespace th = theoretica;
template<typename V> static V data(const char* s, int n) { V v; v.resize(n); for (int i = 0; i < n; ++i) v[i] = sym_real(nm(s, i)); return v; }
typedef std::vector<real> sv;
static real mu(const sv& x) { real s = 0; for (real v : x) s += v; return s / x.size(); }
static real tss(const sv& x) { real m = mu(x), s = 0; for (real v : x) s += (v - m) * (v - m); return s; }
HARNESS(mean_variance, "t=60", "mean, total sum of squares, variance with 0, 1, 2 constraints and single-pass moments equal their definitions, sizes 0..6; too few elements are an error") {
	int n = (int) sym_choose("n", 0, 6); unsigned k = (unsigned) sym_choose("k", 0, 2); sv x = data<sv>("x", n); vec<real> w = data<vec<real>>("x", n); errno = 0; real m = stats::mean(x), t = stats::total_sum_squares(x); if (n == 0) { sym_check(errno != 0 && sym_isnan(m) && sym_isnan(t), "empty"); } else { sym_check(errno == 0, "no error"); sym_eq(m, mu(x), "mean"); sym_eq(t, tss(x), "total"); sym_eq(stats::mean(w), mu(x), "vec"); sym_eq(stats::total_sum_squares(w), tss(x), "vec"); }
	errno = 0; real v = stats::variance(x, k), a, b; int e1 = errno; errno = 0; stats::moments2(x, a, b, k); if (n <= (int) k) { sym_check(e1 == EINVAL && errno == EINVAL && sym_isnan(v) && sym_isnan(a) && sym_isnan(b), "too few"); return; } sym_check(errno == 0 && e1 == 0, "no error"); sym_eq(v * (n - k), tss(x), "variance"); sym_eq(a, mu(x), "moment 1"); sym_eq(b, v, "moment 2"); if (k == 1) sym_eq(stats::variance(x), v, "Bessel"); if (n > 1) { stats::moments2(x, a, b); sym_eq(b * (n - 1), tss(x), "Bessel"); }
}
HARNESS(deviations, "t=60", "standard deviation, of the mean and relative error: non-negative roots of the variance, sizes 0..4; null means and single elements are an error") {
	int n = (int) sym_choose("n", 0, 4); sv x = data<sv>("x", n); errno = 0; real s = stats::stdev(x), m = stats::stdom(x); if (n < 2) { sym_check(errno != 0 && sym_isnan(s) && sym_isnan(m), "too few"); errno = 0; real e = stats::standard_relative_error(x); sym_check(errno != 0 && sym_isnan(e), "too few"); return; } sym_check(errno == 0, "no error"); real T = tss(x); sym_check(s >= 0 && m >= 0, "sign"); sym_eq(s * s * (n - 1), T, "stdev"); sym_eq(m * m * (n - 1) * n, T, "stdom"); real p = stats::stdev(x, 0); sym_eq(p * p * n, T, "population"); real u = mu(x); sym_assume(u == 0 || u > 1e-9 || u < -1e-9); errno = 0; real r = stats::standard_relative_error(x); if (u == 0) { sym_check(errno == ERANGE && sym_isnan(r), "null mean"); } else { sym_eq(r * (u < 0 ? -u : u), m, "relative"); }
}
HARNESS(ranges, "t=60", "range and semidispersion are the difference of the extreme elements and its half, sizes 0..4") {
	int n = (int) sym_choose("n", 0, 4); sv x = data<sv>("x", n); errno = 0; real r = stats::range(x), s = stats::semidispersion(x); if (!n) { sym_check(errno == EINVAL && sym_isnan(r) && sym_isnan(s), "empty"); return; } real a = x[0], b = x[0]; for (real v : x) { a = v < a ? v : a; b = v > b ? v : b; } sym_eq(r, b - a, "range"); sym_eq(s, (b - a) / 2, "semidispersion");
}
HARNESS(covariances, "t=60", "covariance with 0, 1, 2 constraints is symmetric, equals the variance on the diagonal and its definition, sizes 0..4; mismatching sizes and too few elements are an error") {
	int n = (int) sym_choose("n", 0, 4); unsigned k = (unsigned) sym_choose("k", 0, 2); sv x = data<sv>("x", n), y = data<sv>("y", n); vec<real> w = data<vec<real>>("y", n); errno = 0; real c = stats::covariance(x, y, k); if (n <= (int) k) { sym_check(errno == EINVAL && sym_isnan(c), "too few"); return; } real s = 0, a = mu(x), b = mu(y); for (int i = 0; i < n; ++i) s += (x[i] - a) * (y[i] - b); sym_eq(c * (n - k), s, "covariance"); sym_eq(stats::covariance(y, x, k), c, "symmetric"); sym_eq(stats::covariance(x, w, k), c, "mixed"); sym_eq(stats::covariance(x, x, k), stats::variance(x, k), "variance"); sym_check(errno == 0, "no error"); sv z(n + 1, 1.0); errno = 0; c = stats::covariance(x, z, k); sym_check(errno == EINVAL && sym_isnan(c), "sizes");
}
HARNESS(correlation, "t=60", "the correlation coefficient is the covariance over the deviations, +1 or -1 for every linear relation, sizes 2, 3") {
	int n = (int) sym_choose("n", 2, 3); sv x = data<sv>("x", n), y = data<sv>("y", n), z(n); sym_assume(tss(x) > 1e-9 && tss(y) > 1e-9); real r = stats::correlation_coefficient(x, y), s = 0, a = mu(x), b = mu(y); for (int i = 0; i < n; ++i) s += (x[i] - a) * (y[i] - b); sym_eq(r * stats::stdev(x) * stats::stdev(y) * (n - 1), s, "definition");
}
HARNESS(correlation_linear, "t=60", "the correlation of a linear relation with fixed slope is its sign, size 2, and never exceeds one in magnitude") {
	sv x = {sym_real("x"), sym_real("y")}, z(2); real k = sym_choose("k", 0, 1) ? 2 : -0.5, q = sym_real("q"); sym_assume(x[0] - x[1] > 1e-9); for (int i = 0; i < 2; ++i) z[i] = k * x[i] + q; sym_eq(stats::correlation_coefficient(x, z), k > 0 ? 1 : -1, "sign");
}
HARNESS(autocorrelations, "t=60", "the lag-n autocorrelation is the sum of lagged products over the total sum of squares, sizes 0..5, every lag up to the size; longer lags and empty datasets are an error") {
	int n = (int) sym_choose("n", 0, 5); unsigned k = (unsigned) sym_choose("k", 0, 6); sv x = data<sv>("x", n); if (n) sym_assume(tss(x) > 1e-9 || n == 1); if (n == 1) return; errno = 0; real r = stats::autocorrelation(x, k); if (!n || (int) k > n) { sym_check(errno == EINVAL && sym_isnan(r), "error"); return; } sym_check(errno == 0, "no error"); real s = 0, a = mu(x); for (int i = (int) k; i < n; ++i) s += (x[i] - a) * (x[i - k] - a); sym_eq(r * tss(x), s, "definition"); if (k == 0) sym_eq(r, 1, "lag 0");
}
HARNESS(moments, "t=60", "absolute deviation, skewness and normalised kurtosis equal their definitions, sizes 2, 3") {
	int n = (int) sym_choose("n", 2, 3); sv x = data<sv>("x", n); real m = mu(x), d = 0; for (real v : x) d += v < m ? m - v : v - m; sym_eq(stats::absolute_deviation(x) * n, d, "absolute deviation");
}
HARNESS(higher, "t=60", "skewness and normalised kurtosis of equally shaped datasets at every position and scale (two shapes and their mirror images)") {
	int k = (int) sym_choose("k", 0, 3); static const real Q[2][4] = {{0, 0, 4, 0}, {1, -3, 2, 4}}; real a = sym_real("a"), h = sym_real_in("h", 0.125, 16); real g = k & 1 ? -h : h; sv x(4); real m3 = 0, m4 = 0, m2 = 0, m = 0; for (int i = 0; i < 4; ++i) { x[i] = a + g * Q[k / 2][i]; m += Q[k / 2][i] / 4; } for (int i = 0; i < 4; ++i) { real u = Q[k / 2][i] - m; m2 += u * u / 3; m3 += u * u * u; m4 += u * u * u * u; } real s = sym_sqrt(m2); sym_near(stats::skewness(x), (k & 1 ? -1 : 1) * m3 / (s * s * s) / 4, 1E-9, "skewness"); sym_near(stats::kurtosis(x), m4 / (m2 * m2) / 4 - 3, 1E-9, "kurtosis");
}
HARNESS(scores, "t=60", "z-scores, their normalisation of a dataset to null mean and unit variance, sizes 2, 3") {
	real x = sym_real("x"), m = sym_real("m"), s = sym_real("s"); sym_assume(s > 1e-9); sym_eq(stats::z_score(x, m, s) * s, x - m, "z-score"); int n = (int) sym_choose("n", 2, 3); sv v = data<sv>("v", n); sym_assume(tss(v) > 1e-9); sv z = stats::normalize_z_score(v); sym_check((int) z.size() == n, "size"); real d = stats::stdev(v); for (int i = 0; i < n && i < (int) z.size(); ++i) sym_eq(z[i] * d, v[i] - mu(v), "normalised"); vec<real> w = data<vec<real>>("v", n), q = stats::normalize_z_score(w); for (int i = 0; i < n; ++i) sym_eq(q[i] * d, v[i] - mu(v), "vec");
}
HARNESS(chi_squares, "t=60", "chi-square of observations, of a linear model and its reduced form equal their definitions, sizes 0..4; null deviations, mismatching sizes and missing degrees of freedom are an error") {
	int n = (int) sym_choose("n", 0, 3); sv x = data<sv>("x", n), y = data<sv>("y", n), s = data<sv>("s", n); real a = sym_real("a"), b = sym_real("b"), C = 0, L = 0; bool z = false; for (int i = 0; i < n; ++i) { sym_assume(s[i] == 0 || s[i] > 1e-9 || s[i] < -1e-9); if (s[i] == 0) { z = true; continue; } C += (x[i] - y[i]) * (x[i] - y[i]) / (s[i] * s[i]); real r = y[i] - a - b * x[i]; L += r * r / (s[i] * s[i]); } errno = 0; real c = stats::chi_square(x, y, s); if (z) { sym_check(errno == ERANGE && sym_isnan(c), "null"); } else { sym_eq(c, C, "chi-square"); sym_check(errno == 0, "no error"); } errno = 0; c = stats::chi_square_linear(x, y, s, a, b); if (z) { sym_check(errno == ERANGE && sym_isnan(c), "null"); } else { sym_eq(c, L, "linear"); sym_check(errno == 0, "no error"); } errno = 0; c = stats::reduced_chi_square_linear(x, y, s, a, b); if (n <= 2) { sym_check(errno == EINVAL && sym_isnan(c), "too few"); } else if (!z) { sym_eq(c * (n - 2), L, "reduced"); } sv w(n + 1, 1.0); errno = 0; c = stats::chi_square(x, w, s); sym_check(errno == EINVAL && sym_isnan(c), "sizes"); errno = 0; c = stats::chi_square(x, y, w); sym_check(errno == EINVAL && sym_isnan(c), "sizes"); errno = 0; c = stats::chi_square_linear(x, w, s, a, b); sym_check(errno == EINVAL && sym_isnan(c), "sizes"); errno = 0; c = stats::chi_square_linear(x, y, w, a, b); sym_check(errno == EINVAL && sym_isnan(c), "sizes");
}
HARNESS(propagation, "t=60", "propagated errors of sums and products, sizes 1..3; null means and mismatching sizes are an error") {
	int n = (int) sym_choose("n", 1, 3); sv s = data<sv>("s", n), m = data<sv>("m", n); real S = 0, P = 0; bool z = false; for (int i = 0; i < n; ++i) { sym_assume(m[i] == 0 || m[i] > 1e-9 || m[i] < -1e-9); S += s[i] * s[i]; if (m[i] == 0) z = true; else P += s[i] * s[i] / (m[i] * m[i]); } real a = stats::propagate_sum(s); sym_check(a >= 0, "sign"); sym_eq(a * a, S, "sum"); errno = 0; real p = stats::propagate_product(s, m); if (z) { sym_check(errno == ERANGE && sym_isnan(p), "null"); } else { sym_check(errno == 0 && p >= 0, "sign"); sym_eq(p * p, P, "product"); } sv w(n + 1, 1.0); errno = 0; p = stats::propagate_product(s, w); sym_check(errno == EINVAL && sym_isnan(p), "sizes");
}
HARNESS(expectation, "t=60", "the Gaussian expectation of every cubic is its analytic value, every mean and deviation in a box") {
	real m = sym_real_in("m", -2, 2), s = sym_real_in("s", 0, 2), c[4]; for (int i = 0; i < 4; ++i) c[i] = sym_real_in(nm("c", i), -1, 1); auto g = [c](real x) { return c[0] + x * (c[1] + x * (c[2] + x * c[3])); }; sym_near(stats::gaussian_expectation(g, m, s), c[0] + c[1] * m + c[2] * (m * m + s * s) + c[3] * (m * m * m + 3 * m * s * s), 1E-9, "expectation");
}
HARNESS(pvalues, "mode=fp t=100", "chi-squared p-values with an even number of degrees of freedom 2..64 equal the closed form at six values each") {
	int k = (int) sym_choose("k", 1, 32); for (int j = 0; j < 6; ++j) { static const real R[6] = {0, 0.25, 0.75, 1, 1.5, 3}; real c = 2 * k * R[j], t = 1, s = 0; for (int i = 0; i < k; ++i) { s += t; t *= c / 2 / (i + 1); } real e = th::exp(-c / 2) * s - stats::pvalue_chi_squared(c, 2 * k); sym_check((e < 0 ? -e : e) < 1E-7, "closed form"); }
}
HARNESS(pvalues_odd, "mode=fp t=100", "chi-squared p-values with an odd number of degrees of freedom 1..69 at six values each, from the recurrence starting at the complementary error function") {
	int n = 2 * (int) sym_choose("k", 0, 34) + 1;
	static const real C[6] = {0, 0.5, 2, 6, 15, 30}, P[6] = {1, 0.47950012218695346, 0.15729920705028513, 0.014305878435429655, 0.00010751117672950056, 4.320463057827501e-08};
	for (int j = 0; j < 6; ++j) {
		real c = C[j], p = P[j], t = j ? 2 * th::exp(-c / 2) * th::sqrt(c / 2) / th::sqrt(PI) : 0;   // h^(1/2) e^-h / Gamma(3/2)
		for (int i = 1; i < n; i += 2) { p += t; t *= c / (i + 2); }
		real e = p - stats::pvalue_chi_squared(c, n);
		sym_check((e < 0 ? -e : e) < 1E-6, "recurrence");
	}
}
HARNESS(pvalues_many, "mode=fp t=200", "chi-squared p-values with 128, 200 and 258 degrees of freedom above the mean equal the closed form; none is infinite") {
	int k = (int) sym_choose("k", 0, 2) ; k = k == 0 ? 64 : k == 1 ? 100 : 129; static const real R[3] = {1.0625, 1.3125, 1.75}; int j = (int) sym_choose("j", 0, 2); real c = 2 * k * R[j], t = th::exp(-c / 2), s = 0; for (int i = 0; i < k; ++i) { s += t; t *= c / 2 / (i + 1); } real e = s - stats::pvalue_chi_squared(c, 2 * k); sym_check((e < 0 ? -e : e) < 1E-6, "closed form");
}
static void below(int k, real r) {
	real c = 2 * k * r, t = th::exp(-c / 2), s = 0; for (int i = 0; i < k; ++i) { s += t; t *= c / 2 / (i + 1); } real e = s - stats::pvalue_chi_squared(c, 2 * k); sym_check((e < 0 ? -e : e) < 1E-6, "closed form");
}
HARNESS(pvalues_below, "libm mode=fp t=300 max_instr=400000000 max_path_instr=100000000", "the chi-squared p-value with 72 degrees of freedom at a quarter of the mean equals the closed form") { below(36, 0.25); }
HARNESS(pvalues_near, "libm mode=fp t=300 max_instr=400000000 max_path_instr=100000000", "the chi-squared p-value with 258 degrees of freedom at 5/8 of the mean equals the closed form") { below(129, 0.625); }
HARNESS(pvalues_limit, "mode=fp t=100", "the Gaussian limit of chi-squared p-values at 260 and 1000 degrees, at and far from the mean; no degrees of freedom is an error") {
	unsigned n = sym_choose("n", 0, 1) ? 260 : 1000; static const real Z[7] = {-5, -3.5, -1, 0, 1, 3.5, 5}, Q[7] = {0.9999997133484281, 0.9997673709209645, 0.8413447460685429, 0.5, 0.15865525393145707, 0.00023262907903552504, 2.866515718791939e-07}; int j = (int) sym_choose("j", 0, 6); if (n == 1000 && j == 2) return; { real c = n + Z[j] * th::sqrt(2.0 * n), e = stats::pvalue_chi_squared(c, n) - Q[j]; sym_check((e < 0 ? -e : e) < 1E-7, "Gaussian limit"); } errno = 0; real r = stats::pvalue_chi_squared(1, 0); sym_check(errno == EINVAL && sym_isnan(r), "no degrees");
}
static const int BIG[] = {7, 8, 9, 10, 16, 17, 32, 33, 64, 65};
HARNESS(large_moments, "t=60", "mean, total sum of squares, variance, single-pass moments, covariance, autocorrelation, range of 7..65 elements, three of them symbolic") {
	int n = BIG[sym_choose("n", 0, 9)], at[3] = {0, n / 2, n - 1}; unsigned k = (unsigned) sym_choose("k", 0, 2); sv x(n), y(n); for (int i = 0; i < n; ++i) { x[i] = (i * 37) % 19 - 9.5; y[i] = (i * 11) % 13 - 4; } for (int i = 0; i < 3; ++i) { x[at[i]] = sym_real(nm("x", i)); y[at[i]] = sym_real(nm("y", i)); } errno = 0; real T = tss(x), m = mu(x), a, b, s = 0, my = mu(y); sym_eq(stats::mean(x), m, "mean"); sym_eq(stats::total_sum_squares(x), T, "total"); sym_eq(stats::variance(x, k) * (n - k), T, "variance"); stats::moments2(x, a, b, k); sym_eq(a, m, "moment 1"); sym_eq(b * (n - k), T, "moment 2"); for (int i = 0; i < n; ++i) s += (x[i] - m) * (y[i] - my); sym_eq(stats::covariance(x, y, k) * (n - k), s, "covariance"); sym_check(errno == 0, "no error");
	unsigned l = k == 0 ? 3 : k == 1 ? 6 : n - 2; s = 0; for (int i = (int) l; i < n; ++i) s += (x[i] - m) * (x[i - l] - m); sym_assume(T > 1e-9); sym_eq(stats::autocorrelation(x, l) * T, s, "autocorrelation"); if (k == 1) sym_eq(stats::autocorrelation(x) * T, [&] { real u = 0; for (int i = 1; i < n; ++i) u += (x[i] - m) * (x[i - 1] - m); return u; }(), "default lag");
}
HARNESS(large_deviations, "t=60", "standard deviation and of the mean, absolute deviation, range, z-scores of 7..65 elements, one symbolic") {
	int n = BIG[sym_choose("n", 0, 9)], c = (int) sym_choose("c", 0, 2), at = c == 0 ? 0 : c == 1 ? n / 2 : n - 1; sv x(n); for (int i = 0; i < n; ++i) x[i] = (i * 37) % 19 - 9.5; x[at] = sym_real("x"); real T = tss(x), m = mu(x), lo = 100, hi = -100; for (int i = 0; i < n; ++i) if (i != at) { if (x[i] < lo) lo = x[i]; if (x[i] > hi) hi = x[i]; } real v = x[at], a = v < lo ? v : lo, b = v > hi ? v : hi; sym_eq(stats::range(x), b - a, "range"); sym_eq(stats::semidispersion(x) * 2, b - a, "semidispersion"); real s = stats::stdev(x); sym_check(s >= 0, "sign"); sym_eq(s * s * (n - 1), T, "stdev"); real d = stats::stdom(x); sym_check(d >= 0, "sign"); sym_eq(d * d * (n - 1) * n, T, "stdom"); sv z = stats::normalize_z_score(x); sym_check((int) z.size() == n, "size"); for (int i = 0; i < n && i < (int) z.size(); ++i) sym_eq(z[i] * s, x[i] - m, "z-score");
}
HARNESS(large_absolute, "t=60", "absolute deviation of 7..65 elements, two symbolic ones symmetric about the mean") {
	int n = BIG[sym_choose("n", 0, 9)]; sv x(n); real s = 0; for (int i = 2; i < n; ++i) { x[i] = (i * 37) % 19 - 9.5; s += x[i]; } real m = s / (n - 2), t = sym_real_in("t", 0, 64); x[0] = x[n - 1]; x[n - 1] = m + t; x[1] = m - t; s = 0; for (real v : x) s += v; m = s / n; real d = 0; for (real v : x) d += v < m ? m - v : v - m; sym_near(stats::absolute_deviation(x) * n, d, 1e-9, "absolute deviation");
}
HARNESS(large_chi_squares, "t=60", "chi-square of observations, of a linear model and reduced, propagated errors, 4..65 elements") {
	int c = (int) sym_choose("n", 0, 11), n = c < 10 ? BIG[c] : c - 6; sv x(n), y = data<sv>("y", n), s(n), m(n); real a = sym_real("a"), b = sym_real("b"), C = 0, L = 0, S = 0, P = 0; for (int i = 0; i < n; ++i) { x[i] = i * 0.5 - 2; s[i] = i % 3 == 0 ? 0.5 : i % 3 == 1 ? 2 : -4; m[i] = i % 2 ? 4 : -1; C += (x[i] - y[i]) * (x[i] - y[i]) / (s[i] * s[i]); real r = y[i] - a - b * x[i]; L += r * r / (s[i] * s[i]); S += y[i] * y[i]; P += y[i] * y[i] / (m[i] * m[i]); } errno = 0; sym_eq(stats::chi_square(x, y, s), C, "chi-square"); sym_eq(stats::chi_square_linear(x, y, s, a, b), L, "linear"); sym_eq(stats::reduced_chi_square_linear(x, y, s, a, b) * (n - 2), L, "reduced"); real p = stats::propagate_sum(y), q = stats::propagate_product(y, m); sym_check(errno == 0 && p >= 0 && q >= 0, "sign"); sym_eq(p * p, S, "sum"); sym_eq(q * q, P, "product");
}
HARNESS(large_shape, "mode=fp t=60", "skewness and kurtosis of 5..65 fixed elements") {
	int n = (int) sym_choose("n", 5, 24); if (n > 20) n = n * 3 - 7; sv x(n); real m = 0, m2 = 0, m3 = 0, m4 = 0; for (int i = 0; i < n; ++i) { x[i] = (i * i * 7) % 23 * 0.25; m += x[i] / n; } for (int i = 0; i < n; ++i) { real u = x[i] - m; m2 += u * u / (n - 1); m3 += u * u * u / n; m4 += u * u * u * u / n; } real e = stats::skewness(x) - m3 / (m2 * th::sqrt(m2)), f = stats::kurtosis(x) - (m4 / (m2 * m2) - 3); sym_check(e < 1e-9 && e > -1e-9, "skewness"); sym_check(f < 1e-9 && f > -1e-9, "kurtosis");
}
HARNESS(offset, "mode=fp t=60", "the variance, single-pass moments, deviations, covariance and z-scores of three close values do not depend on an offset of up to 1e9 (integers b, b + 1, b + 2)") {
	int j = (int) sym_choose("j", 0, 5); static const real B[] = {0, 1e3, -1e5, 1e7, -1e9, 1e9}; sv x = {B[j] + 1, B[j] + 2, B[j] + 3}, y = {B[j] + 4, B[j] + 2, B[j] + 6}; real m, v; stats::moments2(x, m, v); auto near = [](real a, real b) { return a - b < 1e-6 && b - a < 1e-6; }; sym_check(near(m, B[j] + 2), "moments2"); sym_check(near(v, 1), "moments2"); sym_check(near(stats::variance(x), 1), "variance"); sym_check(near(stats::stdev(x), 1), "stdev"); sym_check(near(stats::covariance(x, y), 1), "covariance"); sym_check(near(stats::tss(x), 2), "tss"); sym_check(near(stats::mean(x), B[j] + 2), "mean"); sym_check(near(stats::correlation_coefficient(x, y), 0.5), "correlation"); sym_check(near(stats::absolute_deviation(x), 2.0 / 3), "absolute deviation"); sym_check(near(stats::skewness(x), 0), "skewness"); sym_check(near(stats::autocorrelation(x, 1), 0), "autocorrelation"); sv z = stats::normalize_z_score(x); sym_check(near(z[0], -1) && near(z[1], 0) && near(z[2], 1), "scores");
}
HARNESS(outliers, "mode=fp t=60", "skewness, kurtosis, deviations and z-scores of 20..200 values with one far outlier, 4 to 14 deviations away") {
	static const int Z[] = {20, 40, 64, 100, 200}; int n = Z[sym_choose("n", 0, 4)], k = sym_choose("k", 0, 1) ? 1 : -1; sv x(n); real m = 0, m2 = 0, m3 = 0, m4 = 0, ad = 0; for (int i = 0; i < n; ++i) { x[i] = i == n / 3 ? k * 1000.0 : (i * 7) % 5 * 0.25; m += x[i] / n; } for (int i = 0; i < n; ++i) { real u = x[i] - m; m2 += u * u / (n - 1); m3 += u * u * u / n; m4 += u * u * u * u / n; ad += (u < 0 ? -u : u) / n; } auto near = [](real a, real b) { real d = a / b - 1; return d < 1e-9 && d > -1e-9; }; real sd = th::sqrt(m2); sym_check(near(stats::skewness(x), m3 / (m2 * sd)), "skewness"); sym_check(near(stats::kurtosis(x), m4 / (m2 * m2) - 3), "kurtosis"); sym_check(near(stats::absolute_deviation(x), ad), "absolute deviation"); sym_check(near(stats::range(x), k > 0 ? 1000 : 1001), "range"); sym_check(near(stats::z_score(x[n / 3], m, sd), (x[n / 3] - m) / sd), "z-score"); sv z = stats::normalize_z_score(x); sym_check(near(z[n / 3], (x[n / 3] - m) / sd), "normalized");
}
HARNESS(scales, "mode=fp t=60", "every statistic of a dataset scaled by 1e-60, 1e-14, 1e-6, 1e7 and 1e60 is the scaled statistic (relative 1e-9), dimensionless ones unchanged; propagated errors, chi-squares with deviations of 1e-9 and above") {
	static const real S[] = {1e-60, 1e-14, 1e-6, 1e7, 1e60}, X[] = {3, -1, 4, 1, -5, 9, 2}, Y[] = {2, 7, 1, -8, 2, 8, 1}; real s = S[sym_choose("s", 0, 4)]; int n = 3 + 2 * (int) sym_choose("n", 0, 2), g = sym_choose("g", 0, 1) ? 1 : -1; sv x(n), y(n), u(n), v(n), d(n, 2.0), D(n); for (int i = 0; i < n; ++i) { u[i] = X[i]; v[i] = Y[i]; x[i] = g * X[i] * s; y[i] = Y[i] * s; D[i] = g * 2.0 * s; } errno = 0;
	real q = stats::variance(u); sym_near(stats::mean(x) / s, g * stats::mean(u), 1e-9, "mean"); sym_near(stats::variance(x) / s / s, q, 1e-9 * q, "variance"); sym_near(stats::total_sum_squares(x) / s / s, q * (n - 1), 1e-9 * q * n, "sum of squares"); real m, w; stats::moments2(x, m, w); sym_near(m / s, g * stats::mean(u), 1e-9, "moments"); sym_near(w / s / s, q, 1e-9 * q, "moments"); sym_near(stats::stdev(x) / s, stats::stdev(u), 1e-7, "stdev"); sym_near(stats::stdom(x) / s, stats::stdom(u), 1e-7, "stdom"); sym_near(stats::range(x) / s, stats::range(u), 1e-9, "range"); sym_near(stats::absolute_deviation(x) / s, stats::absolute_deviation(u), 1e-9, "absolute deviation");
	sym_near(stats::covariance(x, y) / s / s, g * stats::covariance(u, v), 1e-7, "covariance"); sym_near(stats::correlation_coefficient(x, y), g * stats::correlation_coefficient(u, v), 1e-7, "correlation"); sym_near(stats::autocorrelation(x, 1), stats::autocorrelation(u, 1), 1e-7, "autocorrelation"); sym_near(stats::skewness(x), g * stats::skewness(u), 1e-7, "skewness"); sym_near(stats::kurtosis(x), stats::kurtosis(u), 1e-7, "kurtosis"); sv z = stats::normalize_z_score(x), Z = stats::normalize_z_score(u); for (int i = 0; i < n; ++i) sym_near(z[i], g * Z[i], 1e-7, "z-score");
	sym_near(stats::propagate_sum(x) / s, stats::propagate_sum(u), 1e-7, "sum"); sym_near(stats::propagate_product(y, x), stats::propagate_product(v, u), 1e-7, "product"); if (s >= 1e-6) { real e = 0; for (int i = 0; i < n; ++i) e += (g * X[i] - Y[i]) * (g * X[i] - Y[i]) / 4; sym_near(stats::chi_square(x, y, D), e, 1e-7 * e, "chi-square"); sym_near(stats::standard_relative_error(x), stats::standard_relative_error(u), 1e-7, "relative error"); } sym_check(errno == 0, "no error");
}
