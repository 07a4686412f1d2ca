// C32 linear regression
#include "sym.h"
#include <vector>
#include "theoretica.h"
using namespace theoretica;
namespace th = theoretica;
typedef std::vector<real> sv;
template<typename V> static V data(const char* s, int n) { V v; v.resize(n); for (int i = 0; i < n; ++i) v[i] = sym_real(nm(s, i)); return v; }
struct sums { real n, x, y, xx, xy, D; sums(const sv& X, const sv& Y, const sv* W = nullptr) : n(0), x(0), y(0), xx(0), xy(0) { for (unsigned i = 0; i < X.size(); ++i) { real w = W ? (*W)[i] : 1; n += w; x += w * X[i]; y += w * Y[i]; xx += w * X[i] * X[i]; xy += w * X[i] * Y[i]; } D = n * xx - x * x; } };
static void spread(const sums& s) { sym_assume(s.D > 1e-9 || s.D == 0); }
HARNESS(ols, "t=60", "ordinary least squares solves the normal equations in all three forms, with the errors and covariance of the coefficients, 2..4 points; equal abscissae and mismatching sizes are an error") {
	int n = (int) sym_choose("n", 2, 4); sv x = data<sv>("x", n), y = data<sv>("y", n); real e = sym_real("e"); sums s(x, y); spread(s); real A, B, A2, B2, sA, sB, A3, B3; mat2 c; errno = 0; regression::ols_linear(x, y, A, B); int e1 = errno; errno = 0; regression::ols_linear(x, y, e, A2, B2, sA, sB); int e2 = errno; errno = 0; regression::ols_linear(x, y, e, A3, B3, c); if (s.D == 0) { sym_check(e1 == ERANGE && e2 == ERANGE && errno == ERANGE && sym_isnan(A) && sym_isnan(B) && sym_isnan(A2) && sym_isnan(B2) && sym_isnan(A3) && sym_isnan(B3), "equal abscissae"); return; } sym_check(e1 == 0 && e2 == 0 && errno == 0, "no error");
	sym_eq(A * s.n + B * s.x, s.y, "first normal equation"); sym_eq(A * s.x + B * s.xx, s.xy, "second normal equation"); sym_eq(A2, A, "forms"); sym_eq(B2, B, "forms"); sym_eq(A3, A, "forms"); sym_eq(B3, B, "forms"); sym_eq(c(0, 0) * s.D, e * e * s.xx, "covariance"); sym_eq(c(1, 1) * s.D, e * e * s.n, "covariance"); sym_eq(c(0, 1) * s.D, -e * e * s.x, "covariance"); sym_eq(c(1, 0), c(0, 1), "covariance"); sym_check(sA >= 0 && sB >= 0, "errors"); sym_eq(sA * sA, c(0, 0), "errors"); sym_eq(sB * sB, c(1, 1), "errors");
	sym_eq(regression::ols_linear_intercept(x, y), A, "intercept"); sym_eq(regression::ols_linear_slope(x, y), B, "slope"); real tA = regression::ols_linear_sigma_A(x, y, e), tB = regression::ols_linear_sigma_B(x, y, e); sym_eq(tA * tA, c(0, 0), "intercept error"); sym_eq(tB * tB, c(1, 1), "slope error"); sym_check(tA >= 0 && tB >= 0, "errors");
	sv w(n + 1, 1.0); errno = 0; regression::ols_linear(x, w, A, B); sym_check(errno == EINVAL && sym_isnan(A) && sym_isnan(B), "sizes"); errno = 0; regression::ols_linear(w, y, e, A, B, c); sym_check(errno == EINVAL && sym_isnan(A) && sym_isnan(B), "sizes"); errno = 0; regression::ols_linear(w, y, e, A, B, sA, sB); sym_check(errno == EINVAL && sym_isnan(A) && sym_isnan(B), "sizes"); errno = 0; A = regression::ols_linear_intercept(x, w); B = regression::ols_linear_slope(x, w); sym_check(errno == EINVAL && sym_isnan(A) && sym_isnan(B), "sizes");
}
HARNESS(wls, "t=60", "weighted least squares solves the weighted normal equations with their covariance, 2..3 points, positive weights; equal abscissae and mismatching sizes are an error") {
	int n = (int) sym_choose("n", 2, 3); sv x = data<sv>("x", n), y = data<sv>("y", n), w(n); for (int i = 0; i < n; ++i) w[i] = sym_real_in(nm("w", i), 0.125, 8); sums s(x, y, &w); spread(s); real A, B; mat2 c; errno = 0; regression::wls_linear(x, y, w, A, B, c); if (s.D == 0) { sym_check(errno == ERANGE && sym_isnan(A) && sym_isnan(B), "equal abscissae"); return; } sym_check(errno == 0, "no error"); sym_eq(A * s.n + B * s.x, s.y, "first normal equation"); sym_eq(A * s.x + B * s.xx, s.xy, "second normal equation"); sym_eq(c(0, 0) * s.D, s.xx, "covariance"); sym_eq(c(1, 1) * s.D, s.n, "covariance"); sym_eq(c(0, 1) * s.D, -s.x, "covariance"); sym_eq(c(1, 0), c(0, 1), "covariance"); sym_eq(regression::wls_linear_intercept(x, y, w), A, "intercept"); sym_eq(regression::wls_linear_slope(x, y, w), B, "slope"); sv z(n + 1, 1.0); errno = 0; regression::wls_linear(x, y, z, A, B, c); sym_check(errno == EINVAL && sym_isnan(A) && sym_isnan(B), "sizes"); errno = 0; regression::wls_linear(x, z, w, A, B, c); sym_check(errno == EINVAL && sym_isnan(A) && sym_isnan(B), "sizes"); errno = 0; A = regression::wls_linear_intercept(x, y, z); B = regression::wls_linear_slope(x, z, w); sym_check(errno == EINVAL && sym_isnan(A) && sym_isnan(B), "sizes");
}
HARNESS(origin, "t=60", "regressions through the origin solve their normal equation, with the error of the slope, 1..3 points; null abscissae and mismatching sizes are an error") {
	int n = (int) sym_choose("n", 1, 3); sv x = data<sv>("x", n), y = data<sv>("y", n), w(n); for (int i = 0; i < n; ++i) w[i] = sym_real_in(nm("w", i), 0.125, 8); real e = sym_real("e"), B, s; sums u(x, y), v(x, y, &w); sym_assume(u.xx > 1e-9 || u.xx == 0); errno = 0; regression::ols_linear_orig(x, y, e, B, s); if (u.xx == 0) { sym_check(errno == ERANGE && sym_isnan(B), "null abscissae"); errno = 0; regression::wls_linear_orig(x, y, w, B, s); sym_check(errno == ERANGE && sym_isnan(B), "null abscissae"); return; } sym_check(errno == 0, "no error"); sym_eq(B * u.xx, u.xy, "slope"); sym_check(s >= 0, "error"); sym_eq(s * s * u.xx, e * e, "error"); regression::wls_linear_orig(x, y, w, B, s); sym_check(errno == 0, "no error"); sym_eq(B * v.xx, v.xy, "weighted slope"); sym_check(s >= 0, "weighted error"); sym_eq(s * s * v.xx, 1, "weighted error"); sv z(n + 1, 1.0); errno = 0; regression::ols_linear_orig(x, z, e, B, s); sym_check(errno == EINVAL && sym_isnan(B), "sizes"); errno = 0; regression::wls_linear_orig(x, y, z, B, s); sym_check(errno == EINVAL && sym_isnan(B), "sizes");
}
HARNESS(deming, "t=60", "the regression with errors on both axes is a stationary point of the weighted squared distances with the sign of the covariance, and exact for points on a line, three points") {
	real b = sym_choose("b", 0, 1) ? 2 : -0.5, a = sym_real("a"), h = sym_real_in("h", 0.25, 4), k = sym_real_in("k", 0.25, 4), x0 = sym_real("x"); sv x = {x0, x0 + h, x0 + h + k}, y(3); for (int i = 0; i < 3; ++i) y[i] = a + b * x[i]; real A, B; mat2 c; int q = (int) sym_choose("q", 0, 1); errno = 0; regression::wls_linear(x, y, q ? 0.5 : 2, 1, A, B, c); sym_check(errno == 0, "no error"); sym_eq(B, b, "slope"); sym_eq(A, a, "intercept"); sv z(4, 1.0); errno = 0; regression::wls_linear(x, z, 1, 1, A, B, c); sym_check(errno == EINVAL && sym_isnan(A) && sym_isnan(B), "sizes");
}
HARNESS(deming_stationary, "t=60", "the slope of the regression with errors on both axes solves its quadratic equation with the sign of the covariance, every ordinate, three points") {
	sv x = {-1, 0.5, 2}, y = data<sv>("y", 3); real sx = 2, sy = 0.5, mx = 0.5, my = (y[0] + y[1] + y[2]) / 3, dx = 1.5, dy = 0, dxy = 0; for (int i = 0; i < 3; ++i) { dy += (y[i] - my) * (y[i] - my) / 3; dxy += (x[i] - mx) * (y[i] - my) / 3; } sym_assume(dxy > 1e-9 || dxy < -1e-9); real A, B; mat2 c; regression::wls_linear(x, y, sx, sy, A, B, c); sym_eq(sx * sx * dxy * B * B + (sy * sy * dx - sx * sx * dy) * B - sy * sy * dxy, 0, "quadratic"); sym_check(B * dxy > 0, "sign"); sym_eq(A, my - B * mx, "intercept");
}
HARNESS(residuals, "t=60", "the regression error is the root of the squared residuals over the degrees of freedom, 3..4 points; mismatching sizes are an error") {
	int n = (int) sym_choose("n", 3, 4); sv x = data<sv>("x", n), y = data<sv>("y", n); real a = sym_real("a"), b = sym_real("b"), s = 0; for (int i = 0; i < n; ++i) s += (y[i] - a - b * x[i]) * (y[i] - a - b * x[i]); real e = regression::ols_linear_error(x, y, a, b); sym_check(e >= 0, "sign"); sym_eq(e * e * (n - 2), s, "error"); sv z(n + 1, 1.0); errno = 0; e = regression::ols_linear_error(x, z, a, b); sym_check(errno == EINVAL && sym_isnan(e), "sizes");
}
HARNESS(model, "t=100", "linear_model without errors: coefficients, error, degrees of freedom and predictions, 3 points; fewer points, equal abscissae and mismatching sizes are an error") {
	sv x = data<sv>("x", 3), y = data<sv>("y", 3); sums s(x, y); spread(s); errno = 0; regression::linear_model m(x, y); if (s.D == 0) { sym_check(errno == ERANGE && sym_isnan(m.A) && sym_isnan(m.B), "equal abscissae"); return; } sym_check(errno == 0, "no error"); sym_eq(m.A * 3 + m.B * s.x, s.y, "first normal equation"); sym_eq(m.A * s.x + m.B * s.xx, s.xy, "second normal equation"); real r = 0; for (int i = 0; i < 3; ++i) r += (y[i] - m.A - m.B * x[i]) * (y[i] - m.A - m.B * x[i]); sym_check(m.ndf == 1 && m.err >= 0, "degrees"); sym_eq(m.err * m.err, r, "error"); real t = sym_real("t"); sym_eq(m(t), m.A + m.B * t, "prediction"); sym_check(sym_isnan(m.sigma_A) && sym_isnan(m.chi_squared), "unknown errors"); sv z = {1, 2}; errno = 0; regression::linear_model q(z, z); sym_check(errno == EINVAL && sym_isnan(q.A) && sym_isnan(q.B), "too few"); errno = 0; q.fit(x, z); sym_check(errno == EINVAL && sym_isnan(q.A), "sizes");
}
HARNESS(model_sigma, "t=100", "linear_model with constant errors, different errors (equal to the constant ones when constant) and errors on both axes: coefficients, errors and chi-squared, 4 points with fixed abscissae and errors, every ordinate") {
	sv x = {-1, 0, 2, 4}, y = data<sv>("y", 4), g = {0.5, 1, 2, 1}, k(4, 0.5); for (int i = 0; i < 4; ++i) sym_assume(y[i] >= -1 && y[i] <= 1); sv w = {4, 1, 0.25, 1}; sums s(x, y), u(x, y, &w); real e = 0.5; regression::linear_model m(x, y, e), n(x, y, g), q(x, y, k); sym_eq(m.A * s.n + m.B * s.x, s.y, "first normal equation"); sym_eq(m.A * s.x + m.B * s.xx, s.xy, "second normal equation"); real r = 0, v = 0; for (int i = 0; i < 4; ++i) { real d = y[i] - m.A - m.B * x[i], f = y[i] - n.A - n.B * x[i]; r += d * d / (e * e); v += f * f / (g[i] * g[i]); } sym_eq(m.chi_squared, r, "chi-squared"); sym_near(m.sigma_A * m.sigma_A, e * e * s.xx / s.D, 1E-9, "error"); sym_near(m.sigma_B * m.sigma_B, e * e * s.n / s.D, 1E-9, "error"); sym_check(m.ndf == 2 && n.ndf == 2, "degrees"); sym_eq(n.A * u.n + n.B * u.x, u.y, "weighted"); sym_eq(n.A * u.x + n.B * u.xx, u.xy, "weighted"); sym_eq(n.chi_squared, v, "weighted chi-squared"); sym_near(n.sigma_A * n.sigma_A, u.xx / u.D, 1E-9, "weighted error"); sym_near(n.sigma_B * n.sigma_B, u.n / u.D, 1E-9, "weighted error"); sym_eq(q.A, m.A, "constant"); sym_eq(q.B, m.B, "constant"); sym_eq(q.chi_squared, m.chi_squared, "constant");
}
HARNESS(model_both, "t=60", "linear_model with errors on both axes: chi-squared is the squared residuals over sigma_Y^2 + B^2 sigma_X^2, points on a line and one off it") {
	real d = sym_real_in("d", -1, 1); sv x = {-1, 0, 2, 3}, y = {1, 2 + d, 4, 5 - d}; regression::linear_model m(x, y, 0.5, 0.25); real r = 0; for (int i = 0; i < 4; ++i) { real t = y[i] - m.A - m.B * x[i]; r += t * t; } sym_eq(m.chi_squared * (0.0625 + 0.25 * m.B * m.B), r, "chi-squared"); sym_check(m.ndf == 2, "degrees"); sym_eq(m.A + m.B, 3, "centre"); sym_check(sym_isnan(m.sigma_A) && sym_isnan(m.sigma_B) && sym_isnan(m.covar_mat(0, 0)), "errors of the coefficients are not known"); sym_eq(m.err * m.err * 2, r, "residual error");
	real A, B; mat2 cm; regression::wls_linear(x, y, 0.5, 0.25, A, B, cm); sym_eq(m.A, A, "A"); sym_eq(m.B, B, "B");
}
HARNESS(model_errors, "t=60", "null errors, mismatching sizes and too few points are an error for every fit") {
	sv x = {0, 1, 2}, y = {sym_real("a"), sym_real("b"), sym_real("c")}, z = {1, 2}, o = {1}, good = {1, 3, 4}; errno = 0; regression::linear_model m(x, y, 0.0); sym_check(errno == ERANGE && sym_isnan(m.A), "null error"); m.fit(x, good, 1.0); errno = 0; m.fit(x, z, 1.0); sym_check(errno == EINVAL && sym_isnan(m.A) && sym_isnan(m.B), "sizes"); m.fit(x, good, 1.0); errno = 0; m.fit(z, z, 1.0); sym_check(errno == EINVAL && sym_isnan(m.A) && sym_isnan(m.B), "too few"); m.fit(x, good, 1.0); errno = 0; m.fit(x, z, x); sym_check(errno == EINVAL && sym_isnan(m.A) && sym_isnan(m.B), "sizes"); m.fit(x, good, 1.0); errno = 0; m.fit(x, y, z); sym_check(errno == EINVAL && sym_isnan(m.A) && sym_isnan(m.B), "sizes"); m.fit(x, good, 1.0); errno = 0; m.fit(o, o, o); sym_check(errno == EINVAL && sym_isnan(m.A) && sym_isnan(m.B), "too few"); m.fit(x, good, 1.0); errno = 0; m.fit(x, z, 1.0, 1.0); sym_check(errno == EINVAL && sym_isnan(m.A) && sym_isnan(m.B), "sizes"); m.fit(x, good, 1.0); errno = 0; m.fit(o, o, 1.0, 1.0); sym_check(errno == EINVAL && sym_isnan(m.A) && sym_isnan(m.B), "too few"); vec<real> v = {0.0, 1.0, 2.0}; errno = 0; regression::linear_model n(x, v, 1.0); sym_check(errno == 0, "mixed types"); sym_near(n.A, 0, 1E-9, "mixed types"); sym_near(n.B, 1, 1E-9, "mixed types");
}
static const int BIG[] = {5, 6, 8, 9, 12, 16, 17, 20, 33, 44, 50, 64};
HARNESS(large_ols, "t=60", "least squares, weighted and through the origin with 5..64 points of fixed abscissae and weights and any ordinates; regression error") {
	int n = BIG[sym_choose("n", 0, 11)]; sv x(n), y = data<sv>("y", n), w(n), g(n); for (int i = 0; i < n; ++i) { x[i] = (i * 7 % 11) * 0.5 - 1; w[i] = i % 3 == 0 ? 4 : i % 3 == 1 ? 1 : 0.25; g[i] = i % 3 == 0 ? 0.5 : i % 3 == 1 ? 1 : 2; } real e = 0.5, A, B, A2, B2, sA, sB, A3, B3, s; mat2 c; sums u(x, y), v(x, y, &w); errno = 0; regression::ols_linear(x, y, A, B); regression::ols_linear(x, y, e, A2, B2, sA, sB); regression::ols_linear(x, y, e, A3, B3, c); sym_near(A * u.n + B * u.x, u.y, 0, "first normal equation"); sym_eq(A * u.x + B * u.xx, u.xy, "second normal equation"); sym_eq(A2, A, "forms"); sym_eq(B2, B, "forms"); sym_eq(A3, A, "forms"); sym_eq(B3, B, "forms"); sym_near(c(0, 0) * u.D, e * e * u.xx, 1e-9, "covariance"); sym_near(c(1, 1) * u.D, e * e * u.n, 1e-9, "covariance"); sym_near(c(0, 1) * u.D, -e * e * u.x, 1e-9, "covariance"); sym_near(sA * sA, c(0, 0), 1e-9, "errors"); sym_near(sB * sB, c(1, 1), 1e-9, "errors"); sym_eq(regression::ols_linear_intercept(x, y), A, "intercept"); sym_eq(regression::ols_linear_slope(x, y), B, "slope");
	regression::wls_linear(x, y, w, A2, B2, c); sym_eq(A2 * v.n + B2 * v.x, v.y, "weighted first"); sym_eq(A2 * v.x + B2 * v.xx, v.xy, "weighted second"); sym_near(c(0, 0) * v.D, v.xx, 1e-9, "weighted covariance"); sym_near(c(1, 1) * v.D, v.n, 1e-9, "weighted covariance"); sym_near(c(0, 1) * v.D, -v.x, 1e-9, "weighted covariance"); sym_eq(regression::wls_linear_intercept(x, y, w), A2, "intercept"); sym_eq(regression::wls_linear_slope(x, y, w), B2, "slope"); regression::ols_linear_orig(x, y, e, B3, s); sym_eq(B3 * u.xx, u.xy, "origin"); regression::wls_linear_orig(x, y, w, B3, s); sym_eq(B3 * v.xx, v.xy, "weighted origin"); sym_check(errno == 0, "no error");
	real a = sym_real("a"), b = 0.5, r = 0; sv t(n); for (int i = 0; i < n; ++i) { t[i] = (i * 5) % 7; r += (t[i] - a - b * x[i]) * (t[i] - a - b * x[i]); } real z = regression::ols_linear_error(x, t, a, b); sym_check(z >= 0, "sign"); sym_eq(z * z * (n - 2), r, "residuals");
}
HARNESS(model_refit, "t=60", "a model fitted again has the results of the last fit only: errors, covariance and chi-squared of an earlier fit do not remain, every ordinate") {
	sv x = {0, 1, 2, 4}, y = {sym_real_in("a", -1, 1), 1, 2, 3}, w = {1, 3, 4, 4}, g = {0.5, 1, 2, 1}; int k = (int) sym_choose("k", 0, 3), l = (int) sym_choose("l", 0, 3); regression::linear_model m, n; for (int i = 0; i < 2; ++i) { int c = i ? l : k; const sv& d = i ? w : y; if (c == 0) m.fit(x, d); else if (c == 1) m.fit(x, d, 0.5); else if (c == 2) m.fit(x, d, g); else m.fit(x, d, 0.5, 0.25); } if (l == 0) n.fit(x, w); else if (l == 1) n.fit(x, w, 0.5); else if (l == 2) n.fit(x, w, g); else n.fit(x, w, 0.5, 0.25);
	auto same = [](real a, real b, const char* t) { if (sym_isnan(b)) { sym_check(sym_isnan(a), t); } else { sym_near(a, b, 1e-12, t); } }; same(m.A, n.A, "intercept"); same(m.B, n.B, "slope"); same(m.sigma_A, n.sigma_A, "error of the intercept"); same(m.sigma_B, n.sigma_B, "error of the slope"); same(m.err, n.err, "error"); same(m.chi_squared, n.chi_squared, "chi-squared"); same(m.p_value, n.p_value, "p-value"); sym_check(m.ndf == n.ndf, "degrees"); for (int i = 0; i < 4; ++i) same(m.covar_mat(i / 2, i % 2), n.covar_mat(i / 2, i % 2), "covariance");
}
HARNESS(large_model, "t=60", "linear_model with constant and different errors, 5..64 points on a line moved by one arbitrary ordinate: coefficients, errors, chi-squared") {
	int n = BIG[sym_choose("n", 0, 11)]; sv x(n), y(n), w(n), g(n); real d = sym_real_in("d", -1, 1); for (int i = 0; i < n; ++i) { x[i] = (i * 7 % 11) * 0.5 - 1; w[i] = i % 3 == 0 ? 4 : i % 3 == 1 ? 1 : 0.25; g[i] = i % 3 == 0 ? 0.5 : i % 3 == 1 ? 1 : 2; y[i] = 1 + 2 * x[i] + (i == 2 ? d : 0); } sums s(x, y), u(x, y, &w); real e = 0.5; regression::linear_model m(x, y, e), q(x, y, g), o(x, y); sym_eq(o.A, m.A, "model"); sym_eq(o.B, m.B, "model"); sym_check((int) o.ndf == n - 2, "degrees"); { real t = 0; for (int i = 0; i < n; ++i) { real a = y[i] - o.A - o.B * x[i]; t += a * a; } sym_near(o.err * o.err * (n - 2), t, 1e-9, "residual error"); } sym_near(m.A * s.n + m.B * s.x, s.y, 1e-9, "first"); sym_near(m.A * s.x + m.B * s.xx, s.xy, 1e-9, "second"); real r = 0, v = 0; for (int i = 0; i < n; ++i) { real a = y[i] - m.A - m.B * x[i], f = y[i] - q.A - q.B * x[i]; r += a * a / (e * e); v += f * f / (g[i] * g[i]); } sym_near(m.chi_squared, r, 1e-9, "chi-squared"); sym_near(m.sigma_A * m.sigma_A, e * e * s.xx / s.D, 1E-9, "error"); sym_near(m.sigma_B * m.sigma_B, e * e * s.n / s.D, 1E-9, "error"); sym_check((int) m.ndf == n - 2 && (int) q.ndf == n - 2, "degrees"); sym_near(q.A * u.n + q.B * u.x, u.y, 1e-9, "weighted"); sym_near(q.A * u.x + q.B * u.xx, u.xy, 1e-9, "weighted"); sym_near(q.chi_squared, v, 1e-9, "weighted chi-squared"); sym_near(q.sigma_A * q.sigma_A, u.xx / u.D, 1E-9, "weighted error"); sym_near(q.sigma_B * q.sigma_B, u.n / u.D, 1E-9, "weighted error");
}
HARNESS(unfitted, "t=60", "a model which was not fitted, or whose first fit failed, holds NaN everywhere and no degrees of freedom") {
	sv x = {0, 1, 2}, z = {1, sym_real("z")}; regression::linear_model m, p(x, z), q(z, z, 1.0), r(x, z, 0.5, 0.5), t(x, x, 0.0); const regression::linear_model* M[] = {&m, &p, &q, &r, &t}; for (int i = 0; i < 5; ++i) { const regression::linear_model& a = *M[i]; sym_check(sym_isnan(a.A) && sym_isnan(a.B) && sym_isnan(a.sigma_A) && sym_isnan(a.sigma_B) && sym_isnan(a.err) && sym_isnan(a.chi_squared) && sym_isnan(a.p_value) && a.ndf == 0 && sym_isnan(a.covar_mat(0, 0)), "unfitted"); }
}
HARNESS(scales, "mode=fp t=60", "ordinary and weighted fits, through the origin and with errors on both axes, of five points with abscissae scaled by 1e-5, 1, 1e4 and 1e7 and ordinates by 1e-12, 1 and 1e9, slope of either sign: the scaled coefficients, errors, chi-squared and predictions, relative 1e-6") {
	static const real SX[] = {1e-5, 1, 1e4, 1e7}, SY[] = {1e-12, 1, 1e9}, X[] = {1, 2, 4, 5, 8}, Y[] = {3, 2, 5, 8, 9}, E[] = {1, 2, 1, 0.5, 1}; real sx = SX[sym_choose("x", 0, 3)], sy = SY[sym_choose("y", 0, 2)]; int g = sym_choose("g", 0, 1) ? 1 : -1; sv x(5), y(5), e(5), w(5), W(5), u(5), v(5); for (int i = 0; i < 5; ++i) { u[i] = X[i]; v[i] = g * Y[i]; x[i] = X[i] * sx; y[i] = g * Y[i] * sy; e[i] = E[i] * sy; W[i] = 1 / (E[i] * E[i]); w[i] = W[i] / (sy * sy); } sums s(u, v), t(u, v, &W);
	auto near = [](real a, real b, const char* id) { real d = b < 0 ? -b : b; sym_near(a, b, 1e-6 * d + 1e-9, id); }; real A, B, a, b; errno = 0; regression::ols_linear(x, y, A, B); real A0 = (s.xx * s.y - s.x * s.xy) / s.D, B0 = (s.n * s.xy - s.x * s.y) / s.D; near(A / sy, A0, "intercept"); near(B / sy * sx, B0, "slope"); near(regression::ols_linear_intercept(x, y) / sy, A0, "intercept"); near(regression::ols_linear_slope(x, y) / sy * sx, B0, "slope"); real C = 0; for (int i = 0; i < 5; ++i) { real r = g * Y[i] - A0 - B0 * X[i]; C += r * r; }
	regression::linear_model m(x, y), n(x, y, 0.5 * sy), p, q(x, y, 2 * sx, 0.5 * sy); near(m.A / sy, A0, "model"); near(m.B / sy * sx, B0, "model"); near(m.err / sy * (m.err / sy), C / 3, "error"); real z = m(3 * sx); near(z / sy, A0 + B0 * 3, "prediction");
	{ near(n.A / sy, A0, "model"); near(n.chi_squared, C * 4, "chi-squared"); near(n.covar_mat(0, 0) / sy / sy, 0.25 * s.xx / s.D, "covariance"); near(n.covar_mat(1, 1) / sy / sy * sx * sx, 0.25 * 5 / s.D, "covariance"); near(n.covar_mat(0, 1) / sy / sy * sx, -0.25 * s.x / s.D, "covariance"); near(n.sigma_B / sy * sx * (n.sigma_B / sy * sx), 0.25 * 5 / s.D, "error");
		real A1 = (t.xx * t.y - t.x * t.xy) / t.D, B1 = (t.n * t.xy - t.x * t.y) / t.D, D = 0; if (sy <= 1) { p.fit(x, y, e); near(p.A / sy, A1, "weighted model"); near(p.B / sy * sx, B1, "weighted model"); for (int i = 0; i < 5; ++i) { real r = (g * Y[i] - A1 - B1 * X[i]) / E[i]; D += r * r; } near(p.chi_squared, D, "weighted chi-squared"); mat2 k; regression::wls_linear(x, y, w, a, b, k); near(a / sy, A1, "weighted"); near(b / sy * sx, B1, "weighted"); near(k(0, 0) / sy / sy, t.xx / t.D, "weighted covariance"); } }
	{ real dx = s.xx / 5 - s.x * s.x / 25, dxy = s.xy / 5 - s.x * s.y / 25, dy = 0; for (int i = 0; i < 5; ++i) dy += (Y[i] - g * s.y / 5) * (Y[i] - g * s.y / 5) / 5; real b1 = q.B / sy * sx; sym_near(4 * dxy * b1 * b1 - (4 * dy - 0.25 * dx) * b1 - 0.25 * dxy, 0, 1e-4, "both axes"); sym_check(b1 * g > 0, "sign of the slope"); near(q.A / sy, s.y / 5 - b1 * s.x / 5, "both axes"); }
	regression::ols_linear_orig(x, y, 0.5 * sy, b, a); near(b / sy * sx, s.xy / s.xx, "origin"); near(a / sy * sx * (a / sy * sx), 0.25 / s.xx, "origin"); sym_check(errno == 0, "no error");
}
