// C35 propagation of uncertainties
#include "sym.h"
#include <vector>
#include "theoretica.h"
using namespace theoretica;
namespace th = theoretica;
typedef std::vector<real> sv;
typedef autodiff::dreal_t<2> D2; typedef autodiff::dvec_t<2> V2;
typedef autodiff::dreal_t<0> D0; typedef autodiff::dvec_t<0> V0;
static real C;
static D2 quad2(V2 v) { return v[0] * v[0] + C * v[0] * v[1] - v[1]; }
static D0 quad0(V0 v) { return v[0] * v[0] + C * v[0] * v[1] - v[1]; }
static D0 lin3(V0 v) { return 2.0 * v[0] - v[1] + C * v[2]; }
static D0 one(V0 v) { return v[0] * v[0] * v[0]; }
HARNESS(quadrature, "t=60", "independent uncertainties add in quadrature with the partial derivatives of the function at the best values, fixed and dynamic vectors of 1..3 variables, every value") {
	C = sym_real("c"); real x = sym_real("x"), y = sym_real("y"), a = sym_real("a"), b = sym_real("b"), d = sym_real("d"); real gx = 2 * x + C * y, gy = C * x - 1, want = gx * gx * a * a + gy * gy * b * b; errno = 0; real e = stats::error_propagation<2>(quad2, vec<real, 2>({x, y}), vec<real, 2>({a, b})); sym_check(e >= 0, "sign"); sym_eq(e * e, want, "fixed"); vec<real> X = {x, y}, S = {a, b}; real f = stats::error_propagation<0>(quad0, X, S); sym_check(f >= 0, "sign"); sym_eq(f * f, want, "dynamic"); f = stats::error_propagation<0>(lin3, vec<real>({x, y, a}), vec<real>({a, b, d})); sym_eq(f * f, 4 * a * a + b * b + C * C * d * d, "three"); f = stats::error_propagation<0>(one, vec<real>({x}), vec<real>({a})); sym_eq(f * f, 9 * x * x * x * x * a * a, "one"); sym_check(errno == 0, "no error");
}
HARNESS(sizes, "t=60", "uncertainties and covariance matrices of the wrong size are an error with NaN result") {
	C = 1; real x = sym_real("x"), y = sym_real("y"); vec<real> X = {x, y}; int n = (int) sym_choose("n", 0, 4); if (n == 2) return; vec<real> S; S.resize(n); for (int i = 0; i < n; ++i) S[i] = 1; errno = 0; real e = stats::error_propagation<0>(quad0, X, S); sym_check(sym_isnan(e) && errno == EINVAL, "uncertainties"); if (n == 0) return; mat<real> m(n, n), r(n, 2), c(2, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m(i, j) = 1; errno = 0; e = stats::error_propagation<0>(quad0, X, m); sym_check(sym_isnan(e) && errno == EINVAL, "matrix"); errno = 0; e = stats::error_propagation<0>(quad0, X, r); sym_check(sym_isnan(e) && errno == EINVAL, "rows"); errno = 0; e = stats::error_propagation<0>(quad0, X, c); sym_check(sym_isnan(e) && errno == EINVAL, "columns");
}
HARNESS(covariance_form, "t=60", "with a covariance matrix the variance is the quadratic form of the gradient; a diagonal matrix gives the independent case, fixed and dynamic") {
	C = sym_real("c"); real x = sym_real("x"), y = sym_real("y"), p = sym_real("p"), q = sym_real("q"), r = sym_real("r"), s = sym_real("s"); real gx = 2 * x + C * y, gy = C * x - 1, want = gx * gx * p + gx * gy * (q + r) + gy * gy * s; sym_assume(want >= 0); mat<real, 2, 2> m; m(0, 0) = p; m(0, 1) = q; m(1, 0) = r; m(1, 1) = s; mat<real> n(2, 2); n(0, 0) = p; n(0, 1) = q; n(1, 0) = r; n(1, 1) = s; errno = 0; real e = stats::error_propagation<2>(quad2, vec<real, 2>({x, y}), m); sym_check(e >= 0, "sign"); sym_eq(e * e, want, "fixed"); e = stats::error_propagation<0>(quad0, vec<real>({x, y}), n); sym_eq(e * e, want, "dynamic"); sym_check(errno == 0, "no error");
}
HARNESS(covar_matrix, "t=60", "the covariance matrix holds the sample covariance of every pair of datasets: symmetric, with the variances on the diagonal, 1..3 sets of 2..3 values") {
	int k = (int) sym_choose("k", 1, 3), n = (int) sym_choose("n", 2, 3); std::vector<vec<real>> v(k); for (int i = 0; i < k; ++i) { v[i].resize(n); for (int j = 0; j < n; ++j) v[i][j] = sym_real(nm("v", i, j)); } mat<real> m = stats::covar_mat(v); sym_check((int) m.rows() == k && (int) m.cols() == k, "size"); for (int a = 0; a < k; ++a) for (int b = 0; b < k; ++b) { real ma = 0, mb = 0, s = 0; for (int j = 0; j < n; ++j) { ma += v[a][j]; mb += v[b][j]; } for (int j = 0; j < n; ++j) s += (v[a][j] - ma / n) * (v[b][j] - mb / n); sym_eq(m(a, b) * (n - 1), s, "covariance"); }
}
HARNESS(datasets, "t=60", "from datasets: the mean values and the sample covariance matrix are propagated, two sets of two and three values") {
	C = sym_real("c"); int n = (int) sym_choose("n", 2, 3); std::vector<vec<real>> v(2); real m[2] = {0, 0}, c[2][2]; for (int i = 0; i < 2; ++i) { v[i].resize(n); for (int j = 0; j < n; ++j) { v[i][j] = sym_real(nm("v", i, j)); m[i] += v[i][j] / n; } } for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) { c[a][b] = 0; for (int j = 0; j < n; ++j) c[a][b] += (v[a][j] - m[a]) * (v[b][j] - m[b]) / (n - 1); } real gx = 2 * m[0] + C * m[1], gy = C * m[0] - 1, want = gx * gx * c[0][0] + 2 * gx * gy * c[0][1] + gy * gy * c[1][1]; sym_assume(want >= 0); errno = 0; real e = stats::error_propagation(quad0, v); sym_check(errno == 0, "no error"); sym_eq(e * e, want, "variance");
}
static uint64_t scripted(uint64_t, std::vector<uint64_t>& p) { return p[++p[0]]; }
static real sm(const sv& t, PRNG& g) { return t[0] * (real) (g() & 0xff) + t[1]; }
HARNESS(montecarlo, "t=60", "the Monte Carlo error is the sample standard deviation of the function at the sampled vectors, every words of the generator, 2..3 values of two variables") {
	int n = (int) sym_choose("n", 2, 3); std::vector<uint64_t> p(7); p[0] = 0; real w[6]; for (int i = 0; i < 6; ++i) { p[i + 1] = sym_u64(nm("w", i)); w[i] = (real) (p[i + 1] & 0xff); } PRNG g(scripted, 0, p); std::vector<pdf_sampler> rv; rv.push_back(pdf_sampler(sm, {1, 0}, g)); rv.push_back(pdf_sampler(sm, {2, -1}, g)); real e = stats::error_propagation_mc([](vec<real> v) { return 3 * v[0] + v[1]; }, rv, n), m = 0, s = 0; for (int i = 0; i < n; ++i) m += (3 * w[2 * i] + 2 * w[2 * i + 1] - 1) / n; for (int i = 0; i < n; ++i) { real d = 3 * w[2 * i] + 2 * w[2 * i + 1] - 1 - m; s += d * d; } sym_check(e >= 0, "sign"); sym_eq(e * e * (n - 1), s, "deviation");
}
static D0 many(V0 v) { D0 r = v[0]; for (unsigned i = 1; i < v.size(); ++i) r = r + (i + 1.0) * v[i]; return r + v[0] * v[v.size() - 1]; }
HARNESS(large_quadrature, "t=60", "4..12 variables: independent uncertainties and a full covariance matrix (fixed entries) with the gradient at any best values") {
	static const int Z[] = {4, 5, 6, 8, 12}; int n = Z[sym_choose("n", 0, 4)]; vec<real> X, S, F; X.resize(n); S.resize(n); F.resize(n); std::vector<real> G(n); for (int i = 0; i < n; ++i) { X[i] = i == 0 || i == n - 1 ? sym_real(nm("x", i)) : i; S[i] = sym_real(nm("s", i)); F[i] = 0.5; G[i] = i + 1; } G[0] += X[n - 1]; G[n - 1] += X[0]; real want = 0, w2 = 0; for (int i = 0; i < n; ++i) want += G[i] * G[i] * F[i] * F[i]; errno = 0; real e = stats::error_propagation<0>(many, X, F); sym_check(e >= 0, "sign"); sym_eq(e * e, want, "independent"); mat<real> M(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { M(i, j) = i == j ? n + i : (i < j ? 0.5 : 0.25) * ((i + j) % 3); w2 += G[i] * G[j] * M(i, j); } real f = stats::error_propagation<0>(many, X, M); sym_check(f >= 0, "sign"); sym_eq(f * f, w2, "covariance"); X[0] = 2; X[n - 1] = -1; G[0] = 0; G[n - 1] = n + 2; want = 0; for (int i = 0; i < n; ++i) want += G[i] * G[i] * S[i] * S[i]; e = stats::error_propagation<0>(many, X, S); sym_check(e >= 0, "sign"); sym_eq(e * e, want, "any uncertainties"); sym_check(errno == 0, "no error");
}
HARNESS(large_covar_matrix, "t=60", "the covariance matrix of 4..8 sets of 4..20 values, one arbitrary value in each") {
	int k = (int) sym_choose("k", 4, 8), n = k == 4 ? 4 : k == 5 ? 6 : k == 6 ? 9 : k == 7 ? 16 : 20; std::vector<vec<real>> v(k); for (int i = 0; i < k; ++i) { v[i].resize(n); for (int j = 0; j < n; ++j) v[i][j] = j == (i * 5) % n ? sym_real(nm("v", i)) : (i * 7 + j * 5) % 11; } mat<real> m = stats::covar_mat(v); sym_check((int) m.rows() == k && (int) m.cols() == k, "size"); for (int a = 0; a < k; ++a) for (int b = 0; b < k; ++b) { real ma = 0, mb = 0, s = 0; for (int j = 0; j < n; ++j) { ma += v[a][j]; mb += v[b][j]; } for (int j = 0; j < n; ++j) s += (v[a][j] - ma / n) * (v[b][j] - mb / n); sym_eq(m(a, b) * (n - 1), s, "covariance"); }
}
HARNESS(large_datasets, "t=60", "propagation from 3..5 datasets of 5..12 values, one value arbitrary") {
	int k = (int) sym_choose("k", 3, 5), n = k == 3 ? 5 : k == 4 ? 8 : 12; std::vector<vec<real>> v(k); for (int i = 0; i < k; ++i) { v[i].resize(n); for (int j = 0; j < n; ++j) v[i][j] = (i * 7 + j * 5 + i * j) % 11; } v[1][2] = sym_real_in("v", -4, 4); std::vector<real> m(k), G(k); for (int i = 0; i < k; ++i) { for (int j = 0; j < n; ++j) m[i] += v[i][j]; m[i] /= n; G[i] = i + 1; } G[0] += m[k - 1]; G[k - 1] += m[0]; real w = 0; for (int a = 0; a < k; ++a) for (int b = 0; b < k; ++b) { real s = 0; for (int j = 0; j < n; ++j) s += (v[a][j] - m[a]) * (v[b][j] - m[b]); w += G[a] * G[b] * s / (n - 1); } errno = 0; real e = stats::error_propagation(many, v); sym_check(errno == 0 && e >= 0, "no error"); sym_near(e * e, w, 1e-9, "variance");
}
HARNESS(large_montecarlo, "t=60", "the Monte Carlo error with 4..1200 values of two variables, one word arbitrary") {
	static const int Z[] = {4, 5, 8, 10, 17, 40, 300, 1200}; int n = Z[sym_choose("n", 0, 7)]; std::vector<uint64_t> p(2 * n + 1); p[0] = 0; std::vector<real> w(2 * n); for (int i = 0; i < 2 * n; ++i) { p[i + 1] = i == n ? sym_u64("w") : (uint64_t) (i * 2654435761u) >> 7; w[i] = (real) (p[i + 1] & 0xff); } PRNG g(scripted, 0, p); std::vector<pdf_sampler> rv; rv.push_back(pdf_sampler(sm, {1, 0}, g)); rv.push_back(pdf_sampler(sm, {2, -1}, g)); real e = stats::error_propagation_mc([](vec<real> v) { return 3 * v[0] + v[1]; }, rv, n), m = 0, s = 0; for (int i = 0; i < n; ++i) m += 3 * w[2 * i] + 2 * w[2 * i + 1] - 1; m /= n; for (int i = 0; i < n; ++i) { real d = 3 * w[2 * i] + 2 * w[2 * i + 1] - 1 - m; s += d * d; } sym_check(e >= 0, "sign"); sym_near(e * e * (n - 1), s, 1e-6, "deviation");
}
static D0 constant0(V0 v) { return D0(C); }
static D0 sum0(V0 v) { D0 s = C, p(1.0); for (unsigned i = 0; i < v.size(); ++i) { s += v[i]; p *= v[i]; } return s + p; }
HARNESS(constants, "t=60", "functions that are constant or accumulated from a constant, 2..3 dynamic variables: a constant has no error") {
	C = sym_real("c"); int n = (int) sym_choose("n", 2, 3); vec<real> x(n), d(n); mat<real> m(n, n); real want = 0, form = 0; std::vector<real> g(n); for (int i = 0; i < n; ++i) { x[i] = sym_real(nm("x", i)); d[i] = sym_real(nm("d", i)); } for (int i = 0; i < n; ++i) { real w = 1; for (int j = 0; j < n; ++j) if (j != i) w *= x[j]; g[i] = 1 + w; want += g[i] * g[i] * d[i] * d[i]; m(i, i) = 1 + i; form += g[i] * g[i] * (1 + i); } errno = 0;
	real e = stats::error_propagation<0>(constant0, x, d), f = stats::error_propagation<0>(constant0, x, m); sym_eq(e, 0, "constant"); sym_eq(f, 0, "constant, covariance"); e = stats::error_propagation<0>(sum0, x, d); f = stats::error_propagation<0>(sum0, x, m); sym_eq(e * e, want, "accumulated"); sym_eq(f * f, form, "covariance"); sym_check(errno == 0, "no error");
}
