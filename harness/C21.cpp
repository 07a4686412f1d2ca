// C21 differential operators by automatic differentiation
#include "sym.h"
#include <vector>
#include "theoretica.h"
using namespace theoretica;
using namespace theoretica::autodiff;
namespace th = theoretica;
static real P, Q; // symbolic coefficients of the fields
template<unsigned N> static vec<real, N> in(const char* p, int n) { vec<real, N> x; x.resize(n); for (int i = 0; i < n; ++i) x[i] = sym_real(nm(p, i)); return x; }
static void par() { P = sym_real("p"); Q = sym_real("q"); }
// f = p x^2 y - q x / (1 + y^2) + exp(x) sin(y)
template<typename D, typename V> static D f2(V v) { D x = v[0], y = v[1]; return P * x * x * y - Q * x / (1.0 + y * y) + th::exp(x) * th::sin(y); }
static dreal2 f2s(dvec2 v) { return f2<dreal2>(v); }
static dreal f2d(dvec v) { return f2<dreal>(v); }
template<typename G> static void g2(const G& g, real x, real y, const char* id) { sym_check(g.size() == 2, "size"); if (g.size() != 2) return; real e = sym_exp(x), s = sym_sin(y), c = sym_cos(y), d = 1 + y * y; sym_eq(g[0], 2 * P * x * y - Q / d + e * s, id); sym_eq(g[1], P * x * x + 2 * Q * x * y / (d * d) + e * c, id); }
HARNESS(gradient, "t=60", "gradient of p x^2 y - q x/(1+y^2) + exp(x) sin(y), every point and coefficients, fixed and dynamic, and the returned operator") {
	par(); vec<real, 2> x = in<2>("x", 2); vec<real> y = in<0>("x", 2); g2(autodiff::gradient(f2s, x), x[0], x[1], "fixed"); g2(autodiff::gradient(f2d, y), x[0], x[1], "dynamic"); g2(autodiff::gradient(f2s)(x), x[0], x[1], "operator"); g2(autodiff::gradient(f2d)(y), x[0], x[1], "dynamic operator");
}
HARNESS(divergence, "t=60", "divergence is the sum of the partial derivatives of the field, every point, fixed and dynamic, and the returned operator") {
	par(); vec<real, 2> x = in<2>("x", 2); vec<real> y = in<0>("x", 2); vec<real, 2> g = autodiff::gradient(f2s, x); real d = 1 + x[1] * x[1], e = sym_exp(x[0]), r = 2 * P * x[0] * x[1] - Q / d + e * sym_sin(x[1]) + P * x[0] * x[0] + 2 * Q * x[0] * x[1] / (d * d) + e * sym_cos(x[1]); sym_eq(autodiff::divergence(f2s, x), r, "fixed"); sym_eq(autodiff::divergence(f2d, y), r, "dynamic"); sym_eq(autodiff::divergence(f2s)(x), r, "operator"); sym_eq(g[0] + g[1], r, "gradient");
}
template<unsigned N> static vec<dreal_t<N>, N> field3(vec<dreal_t<N>, N> v) { vec<dreal_t<N>, N> r; r.resize(3); r[0] = P * v[1] * v[2] + v[0] * v[0] * v[2]; r[1] = Q * v[0] * v[0] - v[2] * v[1] * v[0]; r[2] = v[0] * v[1] * v[1] + P * v[2] / (1.0 + v[0] * v[0]); return r; }
static void jac3(real J[3][3], real x, real y, real z) { real d = 1 + x * x; J[0][0] = 2 * x * z; J[0][1] = P * z; J[0][2] = P * y + x * x; J[1][0] = 2 * Q * x - z * y; J[1][1] = -z * x; J[1][2] = -y * x; J[2][0] = y * y - 2 * P * z * x / (d * d); J[2][1] = 2 * x * y; J[2][2] = P / d; }
HARNESS(jacobian3, "t=60", "Jacobian of a rational vector field R^3 -> R^3, every point and coefficients, fixed and dynamic; curl from it") {
	par(); vec<real, 3> x = in<3>("x", 3); vec<real> y = in<0>("x", 3); real J[3][3]; jac3(J, x[0], x[1], x[2]); mat<real, 3, 3> A = autodiff::jacobian<3, 3>(field3<3>, x), C = autodiff::jacobian<3, 3>(field3<3>)(x); mat<real> B = autodiff::jacobian<0, 0>(field3<0>, y); sym_check(B.rows() == 3 && B.cols() == 3, "size"); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { sym_eq(A(i, j), J[i][j], "fixed"); sym_eq(C(i, j), J[i][j], "operator"); sym_eq(B(i, j), J[i][j], "dynamic"); }
	vec<real, 3> c = autodiff::curl<3>(field3<3>, x), e = autodiff::curl<3>(field3<3>)(x); vec<real> d = autodiff::curl<0>(field3<0>, y); real w[3] = {J[2][1] - J[1][2], J[0][2] - J[2][0], J[1][0] - J[0][1]}; sym_check(d.size() == 3, "curl size"); for (int i = 0; i < 3; ++i) { sym_eq(c[i], w[i], "curl"); sym_eq(d[i], w[i], "curl dynamic"); sym_eq(e[i], w[i], "curl operator"); }
}
static vec<dreal2, 3> up(dvec2 v) { vec<dreal2, 3> r; r[0] = v[0] * v[1]; r[1] = P * v[0] * v[0]; r[2] = v[1] * v[1] * v[1] - Q * v[0]; return r; }
static vec<dreal> down(dvec v) { vec<dreal> r; r.resize(2); r[0] = v[0] * v[1] * v[2]; r[1] = P * v[0] - Q * v[2] * v[2]; return r; }
HARNESS(jacobian_rect, "t=60", "Jacobian of rectangular fields R^2 -> R^3 (fixed) and R^3 -> R^2 (dynamic): shape and entries, every point") {
	par(); vec<real, 2> x = in<2>("x", 2); mat<real, 3, 2> J = autodiff::jacobian<2, 3>(up, x); real E[3][2] = {{x[1], x[0]}, {2 * P * x[0], 0}, {-Q, 3 * x[1] * x[1]}}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) sym_eq(J(i, j), E[i][j], "fixed");
	vec<real> y = in<0>("y", 3); mat<real> K = autodiff::jacobian<0, 0>(down, y); sym_check(K.rows() == 2 && K.cols() == 3, "shape"); real F[2][3] = {{y[1] * y[2], y[0] * y[2], y[0] * y[1]}, {P, 0, -2 * Q * y[2]}}; if (K.rows() == 2 && K.cols() == 3) for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) sym_eq(K(i, j), F[i][j], "dynamic");
}
static dvec twice(dvec v) { return v + v; }
static dvec2 twice2(dvec2 v) { return v + v; }
HARNESS(curl_size, "t=60", "curl outside three dimensions gives NaN of the same size and EINVAL") {
	int n = (int) sym_choose("n", 1, 5); if (n != 3) { vec<real> x = in<0>("x", n); errno = 0; vec<real> r = autodiff::curl<0>(twice, x); sym_check((int) r.size() == n && errno == EINVAL, "error"); for (unsigned i = 0; i < r.size(); ++i) sym_check(sym_isnan(r[i]), "NaN"); }
	vec<real, 2> y = in<2>("x", 2); errno = 0; vec<real, 2> s = autodiff::curl<2>(twice2, y); sym_check(errno == EINVAL && sym_isnan(s[0]) && sym_isnan(s[1]), "fixed");
}
HARNESS(directional, "t=60", "directional derivative v (v . grad f), every point and direction, fixed and dynamic, and the returned operator") {
	par(); vec<real, 2> x = in<2>("x", 2), v = in<2>("v", 2); vec<real> y = in<0>("x", 2), w = in<0>("v", 2); vec<real, 2> g = autodiff::gradient(f2s, x), r = autodiff::directional_derivative<2>(f2s, x, v), o = autodiff::directional_derivative<2>(f2s, v)(x); vec<real> s = autodiff::directional_derivative<0>(f2d, y, w); real d = g[0] * v[0] + g[1] * v[1]; for (int i = 0; i < 2; ++i) { sym_eq(r[i], v[i] * d, "fixed"); sym_eq(s[i], v[i] * d, "dynamic"); sym_eq(o[i], v[i] * d, "operator"); }
}
template<unsigned N> static dual2 lap(vec<dual2, N> v) { dual2 x = v[0], y = v[1], z = v[2]; return P * x * x * y + Q * z / (1.0 + x * x) + th::exp(x) * th::sin(y) * z * z * z; }
HARNESS(laplacian, "t=60", "Laplacian of a field with polynomial, rational and transcendental terms, every point, fixed and dynamic, and the returned operator") {
	par(); vec<real, 3> v = in<3>("x", 3); vec<real> w = in<0>("x", 3); real x = v[0], y = v[1], z = v[2], d = 1 + x * x, e = sym_exp(x) * sym_sin(y); real r = 2 * P * y + Q * z * (8 * x * x / (d * d * d) - 2 / (d * d)) + 6 * z * e; sym_eq(autodiff::laplacian<3>(lap<3>, v), r, "fixed"); sym_eq(autodiff::laplacian<0>(lap<0>, w), r, "dynamic"); sym_eq(autodiff::laplacian<3>(lap<3>)(v), r, "operator");
}
template<unsigned N> static multidual<N> obs(vec<multidual<N>, N> v) { return v[0] * v[0] * v[3] + P * v[1]; }
template<unsigned N> static multidual<N> ham(vec<multidual<N>, N> v) { return 0.5 * (v[2] * v[2] + v[3] * v[3]) + Q * v[0] * v[1] * v[1]; }
HARNESS(poisson, "t=60", "the Sturm-Liouville operator is the Poisson bracket {f, H} in phase space, every point of R^4, fixed and dynamic") {
	par(); vec<real, 4> v = in<4>("x", 4); vec<real> w = in<0>("x", 4); real a = v[0], b = v[1], p = v[2], q = v[3]; // q1 q2 p1 p2
	real f[4] = {2 * a * q, P, 0, a * a}, h[4] = {Q * b * b, 2 * Q * a * b, p, q}; real r = f[0] * h[2] + f[1] * h[3] - f[2] * h[0] - f[3] * h[1]; sym_eq(autodiff::sturm_liouville<4>(obs<4>, ham<4>, v), r, "fixed"); sym_eq(autodiff::sturm_liouville<0>(obs<0>, ham<0>, w), r, "dynamic"); sym_eq(autodiff::sturm_liouville<4>(ham<4>, ham<4>, v), 0, "{H, H}");
}
// sum of i x_i^2 + p x_0 x_{n-1}; components: i x_i x_{i+1} + q x_0
template<unsigned N> static multidual<N> fn(vec<multidual<N>, N> v) { multidual<N> r = v[0] * v[v.size() - 1] * P; for (unsigned i = 0; i < v.size(); ++i) r = r + (i + 1.0) * v[i] * v[i]; return r; }
template<unsigned N> static vec<multidual<N>, N> fieldn(vec<multidual<N>, N> v) { vec<multidual<N>, N> r; unsigned n = v.size(); r.resize(n); for (unsigned i = 0; i < n; ++i) r[i] = (i + 1.0) * v[i] * v[(i + 1) % n] + Q * v[0]; return r; }
template<unsigned N> static dual2 lapn(vec<dual2, N> v) { dual2 r = v[0] * v[1] * P; for (unsigned i = 0; i < v.size(); ++i) r = r + (i + 1.0) * v[i] * v[i] * v[i]; return r; }
template<unsigned N> static multidual<N> hamn(vec<multidual<N>, N> v) { multidual<N> r = v[0] * v[1] * Q; unsigned n = v.size() / 2; for (unsigned i = 0; i < n; ++i) r = r + 0.5 * v[n + i] * v[n + i] + (i + 1.0) * v[i] * v[i]; return r; }
template<unsigned N> static void large(int n) {
	par(); vec<real, N> x = in<N>("x", n), v = in<N>("v", n); std::vector<real> g(n); real div = 0, dd = 0, lp = 0; for (int i = 0; i < n; ++i) { g[i] = 2 * (i + 1) * x[i] + (i == 0 ? P * x[n - 1] : 0) + (i == n - 1 ? P * x[0] : 0); div += g[i]; dd += g[i] * v[i]; lp += 6 * (i + 1) * x[i]; } vec<real, N> G = autodiff::gradient(fn<N>, x), D = autodiff::directional_derivative<N>(fn<N>, x, v); sym_check((int) G.size() == n && (int) D.size() == n, "size"); for (int i = 0; i < n && i < (int) G.size() && i < (int) D.size(); ++i) { sym_eq(G[i], g[i], "gradient"); sym_eq(D[i], v[i] * dd, "directional"); } sym_eq(autodiff::divergence(fn<N>, x), div, "divergence"); sym_eq(autodiff::laplacian<N>(lapn<N>, x), lp, "Laplacian");
	mat<real, N, N> J = autodiff::jacobian<N, N>(fieldn<N>, x); sym_check((int) J.rows() == n && (int) J.cols() == n, "shape"); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { real e = 0; int k = (i + 1) % n; if (j == i) e += (i + 1) * x[k]; if (j == k) e += (i + 1) * x[i]; if (j == 0) e += Q; sym_eq(J(i, j), e, "Jacobian"); }
	if (n % 2 == 0) { int m = n / 2; real e = 0; for (int i = 0; i < m; ++i) { real hq = 2 * (i + 1) * x[i] + (i == 0 ? Q * x[1] : i == 1 ? Q * x[0] : 0), hp = x[m + i]; if (m == 1 && i == 0) hq = 2 * x[0] + Q * x[1]; e += g[i] * hp - g[m + i] * hq; } if (m > 1) sym_eq(autodiff::sturm_liouville<N>(fn<N>, hamn<N>, x), e, "Poisson bracket"); }
}
HARNESS(large_operators, "t=60", "gradient, divergence, directional derivative, Laplacian, Jacobian and Poisson bracket in 4..9 dimensions (dynamic) and 6 (fixed), every point") { int n = (int) sym_choose("n", 4, 10); if (n == 10) large<6>(6); else large<0>(n); }
// fields built from constants and accumulated from a constant
template<unsigned N> static dreal_t<N> accum(vec<dreal_t<N>, N> v) { dreal_t<N> s = P, t(Q); for (unsigned i = 0; i < v.size(); ++i) { s *= v[i]; t += v[i] * dreal_t<N>(i + 1.0); } return s - t; }
template<unsigned N> static dreal_t<N> fixed_value(vec<dreal_t<N>, N> v) { return dreal_t<N>(P); }
template<unsigned N> static vec<dreal_t<N>, N> part(vec<dreal_t<N>, N> v) { vec<dreal_t<N>, N> r; r.resize(v.size()); for (unsigned i = 0; i < v.size(); ++i) r[i] = i == 1 ? dreal_t<N>(Q) : v[0] * P; return r; }
template<unsigned N> static void consts(int n) {
	vec<real, N> x = in<N>("x", n); errno = 0; auto g = autodiff::gradient(accum<N>, x), z = autodiff::gradient(fixed_value<N>, x); sym_check((int) g.size() == n && (int) z.size() == n, "size"); if ((int) g.size() != n || (int) z.size() != n) return; real dv = 0; for (int i = 0; i < n; ++i) { real w = P; for (int j = 0; j < n; ++j) if (j != i) w *= x[j]; sym_eq(g[i], w - (i + 1), "accumulated"); dv += w - (i + 1); sym_eq(z[i], 0, "constant"); }
	sym_eq(autodiff::divergence(accum<N>, x), dv, "divergence"); sym_eq(autodiff::divergence(fixed_value<N>, x), 0, "divergence of a constant"); auto J = autodiff::jacobian<N, N>(part<N>, x); sym_check((int) J.rows() == n && (int) J.cols() == n, "shape"); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) sym_eq(J(i, j), i != 1 && j == 0 ? P : 0, "Jacobian"); vec<real, N> v = in<N>("v", n); auto d = autodiff::directional_derivative<N>(fixed_value<N>, x, v); sym_check((int) d.size() == n, "size"); for (int i = 0; i < n; ++i) sym_eq(d[i], 0, "directional"); if (n == 3) { auto c = autodiff::curl<N>(part<N>, x); sym_eq(c[0], 0, "curl"); sym_eq(c[1], -P, "curl"); sym_eq(c[2], 0, "curl"); } sym_check(errno == 0, "no error");
}
HARNESS(constants, "t=60", "fields that are constant, accumulated from a constant or with a constant component, 2..4 dimensions, fixed and dynamic") { par(); int n = (int) sym_choose("n", 2, 5); if (n == 5) consts<3>(3); else consts<0>(n); }
