// C31 histogram
#include "sym.h"
#include <vector>
#include "theoretica.h"
using namespace theoretica;
namespace th = theoretica;
typedef std::vector<real> sv;
static int bin(real x, real a, real b, int n) { if (x == b) return n - 1; int i = 0; while (i < n - 1 && x >= a + (b - a) * (i + 1) / n) ++i; return i; }
HARNESS(inserting, "t=100", "inserting up to three values into 1..3 bins: values inside are counted once in the bin that contains them (the upper end in the last), values outside are ignored, and number, mean, sum of squares, minimum and maximum are those of the values inside") {
	int n = (int) sym_choose("n", 1, 3), k = (int) sym_choose("k", 0, 3); real a = -1, b = 2; histogram h(n, a, b); int c[3] = {0, 0, 0}, m = 0; real s = 0, q = 0, lo = 0, hi = 0; for (int i = 0; i < k; ++i) { real x = sym_real(nm("x", i)); h.insert(x); if (x < a || x > b) continue; c[bin(x, a, b, n)]++; if (!m || x < lo) lo = x; if (!m || x > hi) hi = x; ++m; s += x; q += x * x; }
	sym_check((int) h.number() == m, "number"); auto v = h.bins(); sym_check((int) v.size() == n, "bins"); for (int i = 0; i < n; ++i) { sym_check((int) h[i] == c[i], "count"); sym_check((int) v[i] == c[i], "bins"); } if (m) { sym_eq(h.mean() * m, s, "mean"); sym_eq(stats::mean(h) * m, s, "mean"); sym_eq(h.tss() * m, q * m - s * s, "sum of squares"); sym_eq(stats::tss(h), h.tss(), "sum of squares"); sym_eq(h.min(), lo, "minimum"); sym_eq(h.max(), hi, "maximum"); sym_eq(th::min(h), lo, "minimum"); sym_eq(th::max(h), hi, "maximum"); } errno = 0; real w = stats::variance(h); if (m < 2) { sym_check(errno == ERANGE && sym_isnan(w), "variance of one"); } else { sym_check(errno == 0, "variance"); sym_eq(w * m * (m - 1), q * m - s * s, "variance"); real d = stats::stdev(h); sym_check(d >= 0, "deviation"); sym_eq(d * d, w, "deviation"); }
}
HARNESS(ranges, "t=60", "the bin of any value in any range, as inserted and as evaluated; the function is null outside, 1..4 bins") {
	int n = (int) sym_choose("n", 1, 4); real a = sym_real_in("a", -8, 8), w = sym_real_in("w", 0.001, 8), b = a + w, x = sym_real("x"); histogram h(n, a, b); h.insert(x); if (x < a || x > b) { for (int i = 0; i < n; ++i) sym_check(h[i] == 0, "outside"); sym_check(h.number() == 0, "outside"); sym_eq(h(x), 0, "function outside"); return; } int j = bin(x, a, b, n); for (int i = 0; i < n; ++i) { sym_check((int) h[i] == (i == j ? 1 : 0), "bin"); sym_eq(h(a + w * (i + 0.5) / n), i == j ? 1 : 0, "function"); } sym_eq(h(x), 1, "function"); sym_eq(h(b), j == n - 1 ? 1 : 0, "upper end"); sym_eq(h(a), j == 0 ? 1 : 0, "lower end"); sym_eq(h(a - 1), 0, "below"); sym_eq(h(b + 1), 0, "above");
}
HARNESS(dataset, "t=100", "a histogram of a dataset counts every element between its extremes, with the default or given number of bins, and has its statistics, 1..4 elements") {
	int k = (int) sym_choose("k", 1, 4), n = (int) sym_choose("n", 0, 2); if (k == 4 && n == 1) n = 3; sv x(k); real s = 0, q = 0; for (int i = 0; i < k; ++i) { x[i] = k == 4 && i > 1 ? (i == 2 ? -1 : 4) : sym_real(nm("x", i)); s += x[i]; q += x[i] * x[i]; } real lo = x[0], hi = x[0]; for (real v : x) { if (v < lo) lo = v; if (v > hi) hi = v; } histogram h(x, n); int m = n ? n : k == 4 ? 2 : 1; auto v = h.bins(); sym_check((int) v.size() == m, "bins"); if ((int) v.size() != m) return; int c[3] = {0, 0, 0}; for (real t : x) c[bin(t, lo, hi, m)]++; for (int i = 0; i < m; ++i) sym_check((int) h[i] == c[i], "count"); sym_check((int) h.number() == k, "number"); sym_eq(h.mean() * k, s, "mean"); sym_eq(h.tss() * k, q * k - s * s, "sum of squares"); sym_eq(h.min(), lo, "minimum"); sym_eq(h.max(), hi, "maximum");
	real y = sym_real("y"); h.insert(y); if (y < lo || y > hi) { sym_check((int) h.number() == k, "outside"); } else { sym_check((int) h.number() == k + 1, "inserted"); sym_eq(h.mean() * (k + 1), s + y, "mean"); }
}
HARNESS(memory, "mode=fp t=100", "inserting and evaluating any double, NaN and infinities included, never touches memory outside the bins, 0..3 bins, five ranges (unit, symmetric, tiny, null, reversed)") {
	int n = (int) sym_choose("n", 0, 3), k = (int) sym_choose("k", 0, 4); static const real R[5][2] = {{0, 1}, {-4, 4}, {0, 8.470329472543003e-22}, {2, 2}, {1, 0}}; histogram h(n, R[k][0], R[k][1]); real x = sym_real("x"); h.insert(x); unsigned t = 0; for (int i = 0; i < n; ++i) t += h[i]; sym_check(t == h.number(), "total"); real v = h(x); bool in = x >= R[k][0] && x <= R[k][1]; sym_check(v == (in && n ? 1 : 0), "function");
}
HARNESS(rounding, "mode=fp t=60", "values one unit in the last place below the upper end of an asymmetric range fall in the last bin; values across a range shorter than the machine epsilon fall in their bins") {
	int n = (int) sym_choose("n", 1, 9); histogram h(n, -1E10, 1); h.insert(0.99999999); h.insert(1); sym_check(h[n - 1] == 2, "last bin"); histogram g(2, 0, 1E-20); g.insert(0.1E-20); g.insert(0.9E-20); sym_check(g[0] == 1 && g[1] == 1, "tiny range");
}
HARNESS(empty, "t=60", "an empty dataset gives an empty histogram with NaN statistics; inserting into it is harmless") {
	sv e; errno = 0; histogram h(e); sym_check(errno != 0 && h.number() == 0 && h.bins().empty(), "empty"); sym_check(sym_isnan(h.mean()) && sym_isnan(h.max()) && sym_isnan(h.min()), "NaN"); real x = sym_real("x"); h.insert(x); sym_check(h.number() == 0, "ignored"); histogram g(e, 3); sym_check(g.bins().size() == 3, "bins"); g.insert(x); sym_check(g.number() == 0, "ignored");
}
HARNESS(large_inserting, "t=100", "12 values into 4, 5 (two of them arbitrary), 8, 10 and 16 bins (one arbitrary): counts, number, mean, sum of squares, variance, extremes") {
	static const int N[] = {4, 5, 8, 10, 16}; int n = N[sym_choose("n", 0, 4)]; bool two = n < 8; real a = -1, b = 4; histogram h(n, a, b); int c[16] = {0}, m = 0; real s = 0, q = 0, lo = 0, hi = 0; for (int i = 0; i < 12; ++i) { real x = (i * 37 % 11) * 0.5 - 1.25; if (i == 11 || (two && i == 3)) x = sym_real(nm("x", i)); h.insert(x); if (x < a || x > b) continue; c[bin(x, a, b, n)]++; if (!m || x < lo) lo = x; if (!m || x > hi) hi = x; ++m; s += x; q += x * x; }
	sym_check((int) h.number() == m, "number"); auto v = h.bins(); sym_check((int) v.size() == n, "bins"); for (int i = 0; i < n; ++i) { sym_check((int) h[i] == c[i], "count"); sym_check((int) v[i] == c[i], "bins"); } sym_eq(h.mean() * m, s, "mean"); sym_eq(h.tss() * m, q * m - s * s, "sum of squares"); sym_eq(h.min(), lo, "minimum"); sym_eq(h.max(), hi, "maximum"); sym_eq(stats::variance(h) * m * (m - 1), q * m - s * s, "variance");
}
HARNESS(large_dataset, "t=100", "a histogram of 5..40 elements, one of them arbitrary (beyond the others for 5 and 8, inside for 9 and more), with the default (root of the size) or given number of bins") {
	static const int K[] = {5, 8, 9, 10, 16, 17, 25, 40}; int k = K[sym_choose("k", 0, 7)], n = (int) sym_choose("n", 0, 1) * 7; sv x(k); real s = 0, q = 0; for (int i = 0; i < k; ++i) { x[i] = i == k / 2 ? sym_real("x") : (i * 37 % 23) * 0.25 - 2; s += x[i]; q += x[i] * x[i]; } real y = x[k / 2]; x[0] = -2; x[k - 1] = 4; s = q = 0; for (real v : x) { s += v; q += v * v; } if (k < 9) { sym_assume(y > 4); } else { sym_assume(y > -2 && y < 4); } real lo = -2, hi = k < 9 ? y : 4; histogram h(x, n); int m = n; if (!n) { m = 0; while ((m + 1) * (m + 1) <= k) ++m; } auto v = h.bins(); sym_check((int) v.size() == m, "bins"); if ((int) v.size() != m) return; int c[8] = {0}; for (real t : x) c[bin(t, lo, hi, m)]++; for (int i = 0; i < m; ++i) sym_check((int) h[i] == c[i], "count"); sym_check((int) h.number() == k, "number"); sym_eq(h.mean() * k, s, "mean"); sym_eq(h.tss() * k, q * k - s * s, "sum of squares"); sym_eq(h.min(), lo, "minimum"); sym_eq(h.max(), hi, "maximum");
}
HARNESS(large_ranges, "t=60", "the bin of any value among 5..64 bins of a fixed range") {
	static const int N[] = {5, 7, 16, 33, 64}; int n = N[sym_choose("n", 0, 4)]; real a = -2, b = 6, x = sym_real("x"); histogram h(n, a, b); h.insert(x); if (x < a || x > b) { sym_check(h.number() == 0, "outside"); return; } int j = bin(x, a, b, n); for (int i = 0; i < n; ++i) { sym_check((int) h[i] == (i == j ? 1 : 0), "bin"); sym_eq(h(a + (b - a) * (i + 0.5) / n), i == j ? 1 : 0, "function"); } sym_eq(h(x), 1, "function");
}
HARNESS(many_values, "mode=fp t=100", "40, 100 and 300 values inserted one by one, one of them outside: counts, number, mean, sum of squares, extremes") {
	static const int K[] = {17, 33, 40, 100, 300}; int k = K[sym_choose("k", 0, 4)], n = (int) sym_choose("n", 3, 5); real a = -1, b = 63; histogram h(n, a, b); int c[8] = {0}, m = 0; real s = 0, q = 0, lo = 100, hi = -100; for (int i = 0; i < k; ++i) { real x = i == 7 ? 65 : (i * 37 % 61) * 1.0 - 0.5; h.insert(x); if (x > b) continue; c[bin(x, a, b, n)]++; ++m; s += x; q += x * x; if (x < lo) lo = x; if (x > hi) hi = x; }
	sym_check((int) h.number() == m, "number"); for (int i = 0; i < n; ++i) sym_check((int) h[i] == c[i], "count"); sym_near(h.mean(), s / m, 1e-9, "mean"); sym_near(h.tss(), q - s / m * s, 1e-6, "sum of squares"); sym_check(h.min() == lo && h.max() == hi, "extremes"); sym_near(stats::variance(h), (q - s / m * s) / (m - 1), 1e-6, "variance");
}
HARNESS(many_elements, "mode=fp t=100", "a histogram of 100..1000 fixed elements with the default (root of the size) and given numbers of bins: bins, counts and statistics") {
	static const int K[] = {99, 100, 101, 440, 441, 1000}; int k = K[sym_choose("k", 0, 5)], n = (int) sym_choose("n", 0, 2) * 20; sv x(k); real s = 0, q = 0; for (int i = 0; i < k; ++i) { x[i] = (i * 37 % 257) * 0.25 - 30; s += x[i]; q += x[i] * x[i]; } real lo = x[0], hi = x[0]; for (real v : x) { if (v < lo) lo = v; if (v > hi) hi = v; } histogram h(x, n); int m = n; if (!n) { m = 0; while ((m + 1) * (m + 1) <= k) ++m; } sym_check((int) h.bins().size() == m, "bins"); if ((int) h.bins().size() != m) return; std::vector<int> c(m); for (real v : x) { real p = (v - lo) * m / (hi - lo); int j = (int) p; c[j < m ? j : m - 1]++; }
	int total = 0, off = 0; for (int i = 0; i < m; ++i) { total += h[i]; int d = (int) h[i] - c[i]; off += d < 0 ? -d : d; } sym_check(total == k && (int) h.number() == k, "number"); sym_check(off <= 2, "counts"); sym_check(h.min() == lo && h.max() == hi, "extremes"); sym_near(h.mean(), s / k, 1e-9, "mean"); sym_near(h.tss() / k, q / k - s / k * (s / k), 1e-6, "sum of squares"); sym_near(stats::variance(h), (q - s / k * s) / (k - 1), 1e-6, "variance");
}
HARNESS(scales, "mode=fp t=60", "seven values scaled by 1e-30, 1e-12, 1e-5, 1e6 and 1e30, in 1..9 bins over their range or a given one: counts, statistics and values outside") {
	static const real S[] = {1e-30, 1e-12, 1e-5, 1e6, 1e30}, X[] = {3.25, -1.25, 4.125, 1.5, -5, 9, 2.75}; real s = S[sym_choose("s", 0, 4)]; int n = (int) sym_choose("n", 1, 9), k = (int) sym_choose("k", 0, 1); sv x(7); for (int i = 0; i < 7; ++i) x[i] = X[i] * s; real a = k ? -6.71875 : -5, b = k ? 5.59375 : 9, m = 0, q = 0, lo = 9, hi = -9; int c[9] = {0}, N = 0; for (int i = 0; i < 7; ++i) if (X[i] >= a && X[i] <= b) { ++c[bin(X[i], a, b, n)]; ++N; m += X[i]; if (X[i] < lo) lo = X[i]; if (X[i] > hi) hi = X[i]; } m /= N; for (int i = 0; i < 7; ++i) if (X[i] >= a && X[i] <= b) q += (X[i] - m) * (X[i] - m);
	histogram h = k ? histogram(n, a * s, b * s) : histogram(x, n); if (k) for (int i = 0; i < 7; ++i) h.insert(x[i]); sym_check((int) h.number() == N, "number"); sym_check((int) h.bins().size() == n, "bins"); for (int i = 0; i < n && i < (int) h.bins().size(); ++i) sym_check((int) h[i] == c[i], "count"); sym_near(h.mean() / s, m, 1e-9, "mean"); sym_near(h.tss() / s / s, q, 1e-7, "sum of squares"); sym_near(h.min() / s, lo, 1e-9, "minimum"); sym_near(h.max() / s, hi, 1e-9, "maximum"); sym_near(stats::variance(h) / s / s, q / (N - 1), 1e-7, "variance");
}
