// C30 sums, products, maps and means of datasets
#include "sym.h"
#include <vector>
#include "theoretica.h"
using namespace theoretica;
namespace th = theoretica;
template<typename V> static V data(const char* s, int n) { V v; v.resize(n); for (int i = 0; i < n; ++i) v[i] = sym_real(nm(s, i)); return v; }
typedef std::vector<real> sv;
HARNESS(products, "t=60", "product, sum of products, of squares and of triple products equal their definitions, sizes 0..5; empty or mismatching datasets are an error") {
	int n = (int) sym_choose("n", 0, 5); sv x = data<sv>("x", n), y = data<sv>("y", n), z = data<sv>("z", n); vec<real> a = data<vec<real>>("x", n), b = data<vec<real>>("y", n); errno = 0; real p = product(x), s2 = product_sum(x, y), sq = product_sum_squares(x, y), s3 = product_sum(x, y, z), ss = sum_squares(x); if (n == 0) { sym_check(errno == EINVAL && sym_isnan(p) && sym_isnan(s2) && sym_isnan(sq) && sym_isnan(s3) && sym_isnan(ss), "empty"); errno = 0; real q = quotient_sum(x, y); sym_check(errno == EINVAL && sym_isnan(q), "empty quotient"); return; }
	sym_check(errno == 0, "no error"); real P = 1, S2 = 0, SQ = 0, S3 = 0, SS = 0; for (int i = 0; i < n; ++i) { P *= x[i]; S2 += x[i] * y[i]; SQ += x[i] * x[i] * y[i] * y[i]; S3 += x[i] * y[i] * z[i]; SS += x[i] * x[i]; } sym_eq(p, P, "product"); sym_eq(s2, S2, "sum of products"); sym_eq(sq, SQ, "squares"); sym_eq(s3, S3, "triple"); sym_eq(ss, SS, "sum of squares"); sym_eq(product(a), P, "vec"); sym_eq(product_sum(a, b), S2, "vec"); sv w(n + 1, 1.0); errno = 0; real e = product_sum(x, w); sym_check(errno == EINVAL && sym_isnan(e), "sizes"); errno = 0; e = product_sum_squares(w, x); sym_check(errno == EINVAL && sym_isnan(e), "sizes"); errno = 0; e = product_sum(x, y, w); sym_check(errno == EINVAL && sym_isnan(e), "sizes"); errno = 0; e = product_sum(x, w, z); sym_check(errno == EINVAL && sym_isnan(e), "sizes"); errno = 0; e = quotient_sum(x, w); sym_check(errno == EINVAL && sym_isnan(e), "sizes");
}
HARNESS(quotients, "t=60", "quotient_sum is the sum of quotients, sizes 1..4; a null denominator anywhere is an error") {
	int n = (int) sym_choose("n", 1, 4); sv x = data<sv>("x", n), y = data<sv>("y", n); bool z = false; real S = 0; for (int i = 0; i < n; ++i) { sym_assume(y[i] == 0 || y[i] > 1e-9 || y[i] < -1e-9); if (y[i] == 0) z = true; else S += x[i] / y[i]; } errno = 0; real r = quotient_sum(x, y); if (z) { sym_check(errno == ERANGE && sym_isnan(r), "null"); } else { sym_check(errno == 0, "no error"); sym_eq(r, S, "sum"); }
}
HARNESS(sums, "t=60", "pairwise, compensated and default sums equal the sum of all elements, sizes 0..9 and 127..131, 257, 300, vectors and dynamic vec, any range and base size") {
	static const int Z[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 127, 128, 129, 130, 131, 257, 300}; int n = Z[sym_choose("k", 0, 16)]; sv x = data<sv>("x", n); real S = 0; for (int i = 0; i < n; ++i) S += x[i]; sym_eq(sum(x), S, "sum"); sym_eq(sum_pairwise(x), S, "pairwise"); if (n < 5) sym_eq(sum_compensated(x), S, "compensated"); if (n < 10) { vec<real> v = data<vec<real>>("x", n); sym_eq(sum(v), S, "vec"); for (int b = 1; b <= 3; ++b) sym_eq(sum_pairwise(x, 0, 0, b), S, "base size"); for (int i = 0; i < n; ++i) for (int j = i + 1; j <= n; ++j) { real R = 0; for (int k = i; k < j; ++k) R += x[k]; sym_eq(sum_pairwise(x, i, j, 2), R, "range"); } }
}
HARNESS(sums_complex, "t=60", "sums of complex, integer and vector elements, sizes 0..5, the empty ones null") {
	int n = (int) sym_choose("n", 0, 5); std::vector<complex<real>> c(n); std::vector<vec2> w(n); real a = 0, b = 0; for (int i = 0; i < n; ++i) { real x = sym_real(nm("x", i)), y = sym_real(nm("y", i)); c[i] = complex<real>(x, y); w[i] = {x, y}; a += x; b += y; } complex<real> s = sum(c); sym_eq(s.Re(), a, "real part"); sym_eq(s.Im(), b, "imaginary part"); vec2 t = sum(w); sym_eq(t[0], a, "vector"); sym_eq(t[1], b, "vector"); if (n) { complex<real> p = product(c), q(1, 0); for (int i = 0; i < n; ++i) q = complex<real>(q.Re() * c[i].Re() - q.Im() * c[i].Im(), q.Re() * c[i].Im() + q.Im() * c[i].Re()); if (n <= 3) { sym_eq(p.Re(), q.Re(), "product"); sym_eq(p.Im(), q.Im(), "product"); } } std::vector<unsigned> u(n); unsigned U = 0; for (int i = 0; i < n; ++i) { u[i] = sym_u32(nm("u", i)); U += u[i]; } sym_check(sum(u) == U, "integers");
}
HARNESS(compensation, "mode=fp t=60", "compensated summation keeps the small terms: {2^60, b, -2^60} and {b, 2^60, -2^60} give exactly b for every multiple b of 2^-20 up to 1 in magnitude") {
	real b = (real) sym_int_in("b", -(1 << 20), 1 << 20) / 1048576, L = 1152921504606846976.0; sv x; int k = (int) sym_choose("k", 0, 1); if (k) x = {b, L, -L}; else x = {L, b, -L}; sym_check(sum_compensated(x) == b, "kept");
}
template<typename V> static void maps(int n) {
	V x = data<V>("x", n), y = x; auto f = [](real t) { return sym_uf1("f", t); }; V m = th::map(f, x), d; d.resize(n); V& r = th::map(f, x, d); sym_check(&r == &d && (int) m.size() == n, "destination"); V& a = th::apply(f, y); sym_check(&a == &y, "applied"); for (int i = 0; i < n; ++i) { real v = sym_uf1("f", sym_real(nm("x", i))); sym_eq(m[i], v, "map"); sym_eq(d[i], v, "map to destination"); sym_eq(y[i], v, "apply"); sym_eq(x[i], sym_real(nm("x", i)), "source"); }
}
HARNESS(mapping, "t=60", "map and apply evaluate an arbitrary function on every element, sizes 0..5, vectors, dynamic and fixed vec; destinations of another size are an error and stay inside") {
	int n = (int) sym_choose("n", 0, 5); maps<sv>(n); maps<vec<real>>(n); if (n == 3) maps<vec3>(3); auto f = [](real t) { return sym_uf1("f", t); }; sv x = data<sv>("x", n), d(n + 1, 1.0); errno = 0; th::map(f, x, d); sym_check(errno == EINVAL && (int) d.size() == n + 1, "destination size"); for (unsigned i = 0; i < d.size(); ++i) sym_check(sym_isnan(d[i]), "NaN"); vec<real> w = th::map<vec<real>>(f, x); sym_check((int) w.size() == n, "type"); for (int i = 0; i < n; ++i) sym_eq(w[i], sym_uf1("f", x[i]), "type"); errno = 0; vec2 q = th::map<vec2>(f, x); if (n == 2) { sym_eq(q[1], sym_uf1("f", x[1]), "fixed"); sym_check(errno == 0, "fixed"); } else { sym_check(errno == EINVAL && sym_isnan(q[0]) && sym_isnan(q[1]), "fixed size"); }
}
HARNESS(concatenation, "t=60", "concatenate returns the elements of both in order, sizes 0..3 each, mixed types; a fixed-size result of another size is an error and stays inside") {
	int n = (int) sym_choose("n", 0, 3), m = (int) sym_choose("m", 0, 3); sv x = data<sv>("x", n); vec<real> y = data<vec<real>>("y", m); sv r = concatenate(x, y); vec<real> s = concatenate<sv, vec<real>, vec<real>>(x, y); sym_check((int) r.size() == n + m && (int) s.size() == n + m, "size"); for (int i = 0; i < n + m; ++i) { real v = i < n ? x[i] : y[i - n]; sym_eq(r[i], v, "element"); sym_eq(s[i], v, "element"); } vec2 a = {1, 2}; errno = 0; vec2 b = concatenate(a, y); if (m == 0) { sym_eq(b[1], 2, "fixed"); sym_check(errno == 0, "fixed"); } else { sym_check(errno == EINVAL && sym_isnan(b[0]), "fixed size"); }
}
HARNESS(extremes, "t=60", "max and min are elements which bound all the others, sizes 0..5; the empty dataset is an error") {
	int n = (int) sym_choose("n", 0, 4); sv x = data<sv>("x", n); errno = 0; real a = th::max(x), b = th::min(x); if (n == 0) { sym_check(errno == EINVAL && sym_isnan(a) && sym_isnan(b), "empty"); return; } bool ia = false, ib = false; for (int i = 0; i < n; ++i) { sym_check(a >= x[i] && b <= x[i], "bound"); if (a == x[i]) ia = true; if (b == x[i]) ib = true; } sym_check(ia && ib, "element"); sym_check(errno == 0, "no error");
}
HARNESS(means, "t=60", "arithmetic, weighted, harmonic and quadratic means equal their definitions, sizes 0..4; empty datasets and null elements of the harmonic mean are an error") {
	int n = (int) sym_choose("n", 0, 4); sv x = data<sv>("x", n), w = data<sv>("w", n); real S = 0, W = 0, Q = 0, H = 0, SX = 0; bool z = false; for (int i = 0; i < n; ++i) { sym_assume(x[i] == 0 || x[i] > 1e-30 || x[i] < -1e-30); S += x[i] * w[i]; W += w[i]; Q += x[i] * x[i]; SX += x[i]; if (x[i] == 0) z = true; else H += 1 / x[i]; } errno = 0; real a = arithmetic_mean(x); if (n == 0) { sym_check(errno != 0 && sym_isnan(a), "empty"); errno = 0; a = harmonic_mean(x); sym_check(errno != 0 && sym_isnan(a), "empty"); errno = 0; a = quadratic_mean(x); sym_check(errno != 0 && sym_isnan(a), "empty"); errno = 0; a = weighted_mean(x, w); sym_check(errno != 0 && sym_isnan(a), "empty"); errno = 0; a = geometric_mean(x); sym_check(errno != 0 && sym_isnan(a), "empty"); return; }
	sym_eq(a * n, SX, "arithmetic"); real q = quadratic_mean(x); sym_check(q >= 0, "quadratic"); sym_eq(q * q * n, Q, "quadratic"); sym_check(errno == 0, "no error"); sym_assume(W > 1e-9); sym_eq(weighted_mean(x, w) * W, S, "weighted"); errno = 0; real h = harmonic_mean(x); if (z) { sym_check(errno == ERANGE && sym_isnan(h), "null element"); } else if (H != 0) { sym_check(errno == 0, "harmonic"); sym_eq(h * H, n, "harmonic"); } sv v(n + 1, 1.0); errno = 0; a = weighted_mean(x, v); sym_check(errno == EINVAL && sym_isnan(a), "sizes");
}
HARNESS(geometric, "t=60", "the geometric mean of one or two elements is the element or the root of the product, every value; a negative product of two is an error") {
	int n = (int) sym_choose("n", 1, 2); sv x = data<sv>("x", n); errno = 0; real g = geometric_mean(x); if (n == 1) { sym_eq(g, x[0], "one"); return; } real p = x[0] * x[1]; if (p < 0) { sym_check(errno != 0 && sym_isnan(g), "negative"); } else { sym_check(g >= 0, "sign"); sym_eq(g * g, p, "two"); }
}
HARNESS(geometric_fixed, "mode=fp t=60", "geometric means of 3..6 fixed elements") {
	int n = (int) sym_choose("n", 3, 6); sv x; real p = 1; for (int i = 0; i < n; ++i) { x.push_back(0.5 + i * 0.75); p *= x[i]; } real g = geometric_mean(x), q = 1; for (int i = 0; i < n; ++i) q *= g; real e = q - p; sym_check((e < 0 ? -e : e) < 1E-8 * p, "power");
}
static const int BIG[] = {6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 65, 100};
HARNESS(large_products, "t=60", "sums of products, of squares, quotients and the product (two symbolic factors), sizes 6..100") {
	int n = BIG[sym_choose("n", 0, 13)]; sv x = data<sv>("x", n), y(n), z(n), u(n); for (int i = 0; i < n; ++i) { y[i] = (i * 5) % 7 - 3.5; z[i] = (i * 3) % 11 - 4; u[i] = i == 0 || i == n - 1 ? x[i] : i % 3 == 1 ? 0.5 : i % 3 ? 2 : -1; } errno = 0; real P = 1, S2 = 0, SQ = 0, S3 = 0, SS = 0, QS = 0; for (int i = 0; i < n; ++i) { P *= u[i]; S2 += x[i] * y[i]; SQ += x[i] * x[i] * y[i] * y[i]; S3 += x[i] * y[i] * z[i]; SS += x[i] * x[i]; QS += x[i] / y[i]; } sym_eq(product(u), P, "product"); sym_eq(product_sum(x, y), S2, "sum of products"); sym_eq(product_sum_squares(x, y), SQ, "squares"); sym_eq(product_sum(x, y, z), S3, "triple"); sym_eq(sum_squares(x), SS, "sum of squares"); sym_eq(quotient_sum(x, y), QS, "quotients"); sym_check(errno == 0, "no error");
	int k = n / 2; y[k] = 0; errno = 0; sym_check(sym_isnan(quotient_sum(x, y)) && errno == ERANGE, "null");
}
HARNESS(large_sums, "t=60", "sums of 512, 640, 1000, 1024 and 1500 elements, ranges of 300; compensated sums of 5..40 elements, two of them symbolic") {
	static const int Z[] = {512, 640, 1000, 1024, 1500, 300, 5, 8, 16, 17, 33, 40}; int n = Z[sym_choose("n", 0, 11)]; sv x = data<sv>("x", n); real S = 0; for (int i = 0; i < n; ++i) S += x[i]; if (n >= 300) { sym_eq(sum(x), S, "sum"); sym_eq(sum_pairwise(x), S, "pairwise"); if (n == 300) { real R = 0; for (int i = 3; i < 295; ++i) R += x[i]; sym_eq(sum_pairwise(x, 3, 295), R, "range"); sym_eq(sum_pairwise(x, 3, 295, 7), R, "base"); vec<real> v = data<vec<real>>("x", n); sym_eq(sum(v), S, "vec"); } return; }
	S = 0; for (int i = 0; i < n; ++i) { if (i != n / 2 && i != n - 1) x[i] = (i * 5) % 7 - 3; S += x[i]; } sym_eq(sum_compensated(x), S, "compensated");
}
HARNESS(large_maps, "t=60", "map and apply, sizes 6..100, and concatenation") {
	int n = BIG[sym_choose("n", 0, 13)]; maps<sv>(n); maps<vec<real>>(n); if (n == 8) maps<vec<real, 8>>(8); int m = n % 9; sv x = data<sv>("x", n), y = data<sv>("y", m), r = concatenate(x, y), s = concatenate(y, x); sym_check((int) r.size() == n + m && (int) s.size() == n + m, "size"); for (int i = 0; i < n + m; ++i) { sym_eq(r[i], i < n ? x[i] : y[i - n], "element"); sym_eq(s[i], i < m ? y[i] : x[i - m], "element"); }
}
HARNESS(large_extremes, "t=60", "max and min find a symbolic element at any place, sizes 6..100; weighted and other means") {
	int n = BIG[sym_choose("n", 0, 13)], k = (int) sym_choose("k", 0, 4), at = k == 0 ? 0 : k == 1 ? n - 1 : k == 2 ? n / 2 : k == 3 ? 1 : n - 2; sv x(n), w = data<sv>("w", n); real lo = 100, hi = -100, S = 0, W = 0, SX = 0, Q = 0, H = 0; for (int i = 0; i < n; ++i) { x[i] = (i * 37) % 19 - 9.5; if (i == at) { x[i] = sym_real("x"); sym_assume(x[i] >= 0.5); } else { if (x[i] < lo) lo = x[i]; if (x[i] > hi) hi = x[i]; } S += x[i] * w[i]; W += w[i]; SX += x[i]; Q += x[i] * x[i]; H += 1 / x[i]; } real v = x[at]; sym_eq(th::max(x), v > hi ? v : hi, "max"); sym_eq(th::min(x), v < lo ? v : lo, "min"); sv y(x); for (int i = 0; i < n; ++i) y[i] = -y[i]; sym_eq(th::min(y), v > hi ? -v : -hi, "min"); sym_eq(th::max(y), v < lo ? -v : -lo, "max"); sym_eq(arithmetic_mean(x) * n, SX, "arithmetic"); real q = quadratic_mean(x); sym_eq(q * q * n, Q, "quadratic"); sym_assume(W > 1e-9); sym_eq(weighted_mean(x, w) * W, S, "weighted"); if (H > 0.01) sym_eq(harmonic_mean(x) * H, n, "harmonic");
}
HARNESS(compensation_signs, "mode=fp t=60", "compensated sums of terms of both signs and very different magnitudes keep the small ones, in every order of five terms and for lists of such groups") {
	static const real L[] = {1e100, -1e100, 1152921504606846976.0, -1152921504606846976.0}; real l = L[sym_choose("l", 0, 3)]; int k = (int) sym_choose("k", 0, 4), m = (int) sym_choose("m", 0, 4); if (k == m) return; sv x; for (int i = 0, j = 0; i < 5; ++i) x.push_back(i == k ? l : i == m ? -l : real(++j)); sym_check(sum_compensated(x) == 6, "five terms"); sv y; for (int r = 0; r < 8; ++r) for (int i = 0; i < 5; ++i) y.push_back(r % 2 ? -2 * x[i] : x[i]); sym_check(sum_compensated(y) == -24, "groups");
}
HARNESS(scales, "mode=fp t=60", "sums, products, means and extremes of elements of scales 1e-40, 1e-14, 1e-8, 1e7 and 1e40, of either sign; extremes of elements differing by 1e-17 of their size or less than a machine epsilon") {
	static const real S[] = {1e-40, 1e-14, 1e-8, 1e7, 1e40}, X[] = {3, -1, 4, 1, -5, 9, 2}, Y[] = {2, 7, 1, 8, 2, 8, 1}; real s = S[sym_choose("s", 0, 4)]; int n = 1 + 2 * (int) sym_choose("n", 0, 3); sv x(n), y(n), u(n), v(n), w(n); for (int i = 0; i < n; ++i) { u[i] = X[i]; v[i] = Y[i]; x[i] = X[i] * s; y[i] = Y[i] * s; w[i] = Y[i] * 4; } real S1 = 0, S2 = 0, P = 0, H = 0, W = 0, WS = 0, Q = 0, mx = X[0], mn = X[0]; for (int i = 0; i < n; ++i) { S1 += X[i]; S2 += X[i] * X[i]; P += X[i] * Y[i]; H += 1 / X[i]; W += X[i] * w[i]; WS += w[i]; Q += X[i] / Y[i]; if (X[i] > mx) mx = X[i]; if (X[i] < mn) mn = X[i]; } errno = 0;
	sym_near(th::sum(x) / s, S1, 1e-9, "sum"); sym_near(sum_compensated(x) / s, S1, 1e-9, "compensated"); sym_near(sum_pairwise(x) / s, S1, 1e-9, "pairwise"); sym_near(sum_squares(x) / s / s, S2, 1e-7, "squares"); sym_near(product_sum(x, y) / s / s, P, 1e-7, "products"); sym_near(product_sum(x, v) / s, P, 1e-7, "products"); sym_near(arithmetic_mean(x) / s, S1 / n, 1e-9, "mean"); sym_near(weighted_mean(x, w) / s, W / WS, 1e-9, "weighted"); sym_near(weighted_mean(u, y), W / WS, 1e-9, "small weights"); if (H != 0) sym_near(harmonic_mean(x) / s * H, n, 1e-7, "harmonic"); real q = quadratic_mean(x) / s; sym_near(q * q, S2 / n, 1e-7, "quadratic"); sym_near(th::max(x) / s, mx, 1e-9, "maximum"); sym_near(th::min(x) / s, mn, 1e-9, "minimum"); if (s > 1e-15) sym_near(quotient_sum(x, y), Q, 1e-9, "quotients"); sym_check(errno == 0, "no error");
	sv c(n, 1.0); int j = n / 2; c[j] = 1 + 2.220446049250313e-16; sym_check(th::max(c) == c[j] && (n == 1 || th::min(c) == 1), "next number"); for (int i = 0; i < n; ++i) c[i] = 1e-20; c[j] = -1e-20; sym_check(th::min(c) == -1e-20 && (n == 1 || th::max(c) == 1e-20), "tiny numbers");
	{ sv d = {3, 2}, o = {1, -1}; real r = weighted_mean(d, o); sym_check(!(r > -1e300 && r < 1e300), "weights without sum"); }
}
