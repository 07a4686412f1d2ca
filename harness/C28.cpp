// C28 splines, Bezier curves and elementary interpolation
#include "sym.h"
#include <vector>
#include "theoretica.h"
using namespace theoretica;
namespace th = theoretica;
static void natural(const std::vector<spline_node>& s, int n, const real* x, const real* y) {
	sym_check((int) s.size() == n - 1, "pieces"); if ((int) s.size() != n - 1) return; for (int i = 0; i < n - 1; ++i) { real h = x[i + 1] - x[i]; sym_eq(s[i].x, x[i], "abscissa"); sym_eq(s[i](x[i]), y[i], "left value"); sym_eq(s[i](x[i + 1]), y[i + 1], "right value"); real d2 = 2 * s[i].c + 6 * s[i].d * h; if (i == 0) sym_eq(s[i].c, 0, "natural start"); if (i == n - 2) { sym_eq(d2, 0, "natural end"); } else { sym_eq(s[i].deriv(x[i + 1]), s[i + 1].deriv(x[i + 1]), "first derivative"); sym_eq(d2, 2 * s[i + 1].c, "second derivative"); } }
}
HARNESS(splines, "t=100", "cubic splines through any points with increasing abscissae interpolate them with continuous first and second derivatives and natural ends, 2..4 points, both forms") {
	int n = (int) sym_choose("n", 2, 4), k = (int) sym_choose("form", 0, 1); real x[4], y[4]; std::vector<real> X(n), Y(n); std::vector<vec2> p(n); for (int i = 0; i < n; ++i) { x[i] = i ? x[i - 1] + sym_real_in(nm("h", i), 0.125, 8) : sym_real("x"); y[i] = sym_real(nm("y", i)); X[i] = x[i]; Y[i] = y[i]; p[i] = {x[i], y[i]}; } errno = 0; auto s = k ? cubic_splines(X, Y) : cubic_splines(p); sym_check(errno == 0, "no error"); natural(s, n, x, y);
}
HARNESS(splines_fixed, "t=100", "the same with 5..7 unequally spaced fixed abscissae and any ordinates, and the evaluation of the spline and its derivative at any point, extrapolation included") {
	static const real A[7] = {-2, -1.5, 0, 0.25, 2, 5, 5.5}; int n = (int) sym_choose("n", 5, 7); real y[7]; vec<real> X(n), Y(n); std::vector<vec2> p(n); for (int i = 0; i < n; ++i) { y[i] = sym_real(nm("y", i)); X[i] = A[i]; Y[i] = y[i]; p[i] = {A[i], y[i]}; } natural(cubic_splines(X, Y), n, A, y); natural(cubic_splines(p), n, A, y);
}
HARNESS(evaluation, "t=60", "a spline evaluates, and differentiates, the piece that contains the point, the first or last piece outside, for every point and 2..4 points, also after copying and assignment") {
	int n = (int) sym_choose("n", 2, 4); static const real A[4] = {-1, 0.5, 1, 3}; std::vector<real> X(n), Y(n); for (int i = 0; i < n; ++i) { X[i] = A[i]; Y[i] = sym_real(nm("y", i)); } spline s(X, Y), t(s); std::vector<vec2> one = {{0, 0}, {1, 1}}; spline u(one); u = s; auto q = cubic_splines(X, Y); real x = sym_real("x"); int i = 0; while (i < n - 2 && x >= A[i + 1]) ++i; real h = x - A[i], v = q[i].a + q[i].b * h + q[i].c * h * h + q[i].d * h * h * h, d = q[i].b + 2 * q[i].c * h + 3 * q[i].d * h * h; sym_eq(s(x), v, "value"); sym_eq(t(x), v, "copy"); sym_eq(u(x), v, "assigned"); sym_eq(s.deriv(x), d, "derivative"); int c = 0; for (auto& nd : s) { sym_eq(nd.x, A[c], "iteration"); ++c; } sym_check(c == n - 1, "iteration");
}
HARNESS(spline_errors, "t=60", "fewer than two points or data of different sizes are an error with a NaN node") {
	int n = (int) sym_choose("n", 0, 1); real x = sym_real("x"); std::vector<real> X(n, x), Y(n, x), A(3, x), B(2, x); std::vector<vec2> p(n, vec2({x, x})); errno = 0; auto s = cubic_splines(p); sym_check(errno == EINVAL && s.size() == 1 && sym_isnan(s[0].a), "points"); errno = 0; s = cubic_splines(X, Y); sym_check(errno == EINVAL && s.size() == 1 && sym_isnan(s[0].a), "data"); errno = 0; s = cubic_splines(A, B); sym_check(errno == EINVAL && s.size() == 1 && sym_isnan(s[0].a), "sizes"); errno = 0; s = cubic_splines(B, A); sym_check(errno == EINVAL && s.size() == 1 && sym_isnan(s[0].a), "sizes");
}
HARNESS(node_forms, "t=60", "a spline node evaluates its cubic and its derivative about its abscissa, a default node is null everywhere, every coefficient and point; a spline's nodes can be traversed") {
	real x = sym_real("x"), a = sym_real("a"), b = sym_real("b"), c = sym_real("c"), d = sym_real("d"), X = sym_real("X"), h = X - x; spline_node s(x, a, b, c, d), z, t(s); sym_eq(s(X), a + b * h + c * h * h + d * h * h * h, "value"); sym_eq(s.deriv(X), b + 2 * c * h + 3 * d * h * h, "derivative"); sym_eq(t(X), s(X), "copy"); sym_eq(z(X), 0, "null value"); sym_eq(z.deriv(X), 0, "null derivative"); sym_eq(z.x, 0, "null abscissa"); std::vector<real> A = {0, 1, 3, 4}, Y = {a, b, c, d}; spline q(A, Y); int n = 0; for (auto& k : q) { if (n < 3) { sym_eq(k.x, A[n], "node"); sym_eq(k.a, Y[n], "ordinate"); } ++n; } sym_check(n == 3, "nodes");
}
HARNESS(scalars, "t=60", "lerp, invlerp and remap are affine and inverse of each other, every value") {
	real a = sym_real("a"), b = sym_real("b"), c = sym_real("c"), d = sym_real("d"), t = sym_real("t"); sym_eq(th::lerp(a, b, t), (1 - t) * a + t * b, "lerp"); sym_assume(b - a > 1e-9 || b - a < -1e-9); sym_eq(invlerp(a, b, (1 - t) * a + t * b), t, "invlerp"); sym_eq(remap(a, b, c, d, (1 - t) * a + t * b), (1 - t) * c + t * d, "remap");
}
HARNESS(steps, "t=60", "smoothstep and smootherstep: clamped Hermite polynomials with null derivatives at the ends, symmetric, every pair of edges; equal edges are an error") {
	real a = sym_real("a"), b = sym_real("b"), x = sym_real("x"); errno = 0; if (a == b) { real r = smoothstep(a, b, x); sym_check(sym_isnan(r) && errno == ERANGE, "equal"); errno = 0; r = smootherstep(a, b, x); sym_check(sym_isnan(r) && errno == ERANGE, "equal"); return; } real u = (x - a) / (b - a); u = u < 0 ? 0 : u > 1 ? 1 : u; sym_eq(smoothstep(a, b, x), 3 * u * u - 2 * u * u * u, "smoothstep"); sym_eq(smootherstep(a, b, x), 6 * u * u * u * u * u - 15 * u * u * u * u + 10 * u * u * u, "smootherstep"); sym_check(errno == 0, "no error");
}
template<unsigned N> static void curves(int n) {
	vec<real, N> P[4]; real t = sym_real("t"), s = 1 - t; for (int i = 0; i < 4; ++i) { P[i].resize(n); for (int j = 0; j < n; ++j) P[i][j] = sym_real(nm("p", 10 * i + j)); } vec<real, N> l = th::lerp(P[0], P[1], t), q = quadratic_bezier(P[0], P[1], P[2], t), c = cubic_bezier(P[0], P[1], P[2], P[3], t); sym_check((int) l.size() == n && (int) q.size() == n && (int) c.size() == n, "size"); for (int j = 0; j < n; ++j) { sym_eq(l[j], s * P[0][j] + t * P[1][j], "lerp"); sym_eq(q[j], s * s * P[0][j] + 2 * s * t * P[1][j] + t * t * P[2][j], "quadratic"); sym_eq(c[j], s * s * s * P[0][j] + 3 * s * s * t * P[1][j] + 3 * s * t * t * P[2][j] + t * t * t * P[3][j], "cubic"); }
}
HARNESS(bezier_curves, "t=60", "linear, quadratic and cubic Bezier curves equal their Bernstein forms for any points, fixed and dynamic vectors") { if (sym_choose("dynamic", 0, 1)) curves<0>(2); else { curves<2>(2); } }
template<unsigned N> static void general(int m, int n) {
	real t = sym_real("t"); std::vector<vec<real, N>> p(m); for (int i = 0; i < m; ++i) { p[i].resize(n); for (int j = 0; j < n; ++j) p[i][j] = sym_real(nm("p", 10 * i + j)); } errno = 0; vec<real, N> r = bezier(p, t); if (m < 2 || t < 0 || t > 1) { sym_check(errno == EINVAL, "error"); for (unsigned j = 0; j < r.size(); ++j) sym_check(sym_isnan(r[j]), "NaN"); return; } sym_check(errno == 0 && (int) r.size() == n, "no error"); static const int C[6][6] = {{1}, {1, 1}, {1, 2, 1}, {1, 3, 3, 1}, {1, 4, 6, 4, 1}, {1, 5, 10, 10, 5, 1}}; for (int j = 0; j < n && j < (int) r.size(); ++j) { real s = 0; for (int i = 0; i < m; ++i) { real b = C[m - 1][i]; for (int k = 0; k < i; ++k) b *= t; for (int k = i; k < m - 1; ++k) b *= 1 - t; s += b * p[i][j]; } sym_eq(r[j], s, "Bernstein"); }
	for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) sym_eq(p[i][j], sym_real(nm("p", 10 * i + j)), "points kept");
}
HARNESS(bezier_general, "t=60", "Bezier curves of 0..6 points equal their Bernstein form for every parameter in [0, 1], leave the points unchanged; too few points or a parameter outside are an error") { int m = (int) sym_choose("m", 0, 6); if (sym_choose("dynamic", 0, 1)) general<0>(m, 2); else general<2>(m, 2); }
HARNESS(vector_remap, "t=60", "inverse interpolation and remapping of vectors along a diagonal, every parameter") {
	real a = sym_real("a"), w = sym_real("w"), v = sym_real("v"), c = sym_real("c"), d = sym_real("d"); sym_assume(w > 1e-9); vec3 A(a), B(a + w), C = {c, d, 1}, D = {d, c, 3}; errno = 0; real t = invlerp(A, B, v); sym_eq(t, (v - a) / w, "invlerp"); vec3 r = remap(A, B, C, D, v); for (int i = 0; i < 3; ++i) sym_eq(r[i], C[i] + (D[i] - C[i]) * (v - a) / w, "remap"); sym_check(errno == 0, "no error"); vec3 E = {a + w, a + w, a + 2 * w}; sym_assume(v != a); real q = invlerp(A, E, v); sym_check(errno != 0 && sym_isnan(q), "no common parameter"); vec<real> x = {a, a}, y = {a + w, a + 2 * w}; errno = 0; q = invlerp(x, y, v); sym_check(errno != 0 && sym_isnan(q), "dynamic");
}
HARNESS(nlerp_unit, "t=60", "nlerp is the normalised interpolation, points in a box away from the origin") {
	real t = sym_real_in("t", 0, 1), a = sym_real_in("a", -4, 4), b = sym_real_in("b", -4, 4); vec2 A = {a, 1}, B = {b, 2}; vec2 r = nlerp(A, B, t); real x = a + t * (b - a), y = 1 + t; sym_eq(r[0] * r[0] + r[1] * r[1], 1, "unit"); sym_eq(r[0] * y, r[1] * x, "direction"); sym_check(r[1] > 0, "orientation");
}
HARNESS(slerp_arcs, "t=60", "spherical interpolation between fixed vectors follows sin((1-t) w)/sin w, sin(t w)/sin w for every parameter; null and parallel vectors are an error, fixed and dynamic") {
	int k = (int) sym_choose("k", 0, 2); static const real Q[3][4] = {{1, 0, 0, 1}, {2, 0, 3, 3}, {0, 1, -2, 0}}; static const real W[3] = {1.57079632679489662, 0.785398163397448310, 1.57079632679489662}; real t = sym_real_in("t", 0, 1); vec2 A = {Q[k][0], Q[k][1]}, B = {Q[k][2], Q[k][3]}; errno = 0; vec2 r = slerp(A, B, t); sym_check(errno == 0, "no error"); real s = sym_sin(W[k]); for (int i = 0; i < 2; ++i) sym_near(r[i] * s, A[i] * sym_sin((1 - t) * W[k]) + B[i] * sym_sin(t * W[k]), 1E-6, "arc"); vec2 z = {0, 0}; errno = 0; r = slerp(A, z, t); sym_check(errno != 0 && sym_isnan(r[0]) && sym_isnan(r[1]), "null"); vec<real> x = {0.0, 0.0}, y = {1.0, 2.0}; errno = 0; vec<real> q = slerp(x, y, t); sym_check(errno != 0 && q.size() == 2 && sym_isnan(q[0]), "dynamic");
}
HARNESS(large_splines, "t=60", "cubic splines through 8, 9, 12, 16, 20 and 33 fixed abscissae and any ordinates in both forms, evaluated and differentiated inside every piece and outside") {
	static const int N[] = {8, 9, 12, 16, 20, 33}; int n = N[sym_choose("n", 0, 5)]; real x[33], y[33]; vec<real> X(n), Y(n); std::vector<vec2> p(n); for (int i = 0; i < n; ++i) { x[i] = i ? x[i - 1] + (i % 3 + 1) * 0.5 : -2; y[i] = sym_real_in(nm("y", i), -1, 1); X[i] = x[i]; Y[i] = y[i]; p[i] = {x[i], y[i]}; } auto q = cubic_splines(X, Y), r = cubic_splines(p); sym_check((int) q.size() == n - 1 && (int) r.size() == n - 1, "pieces"); if ((int) q.size() != n - 1 || (int) r.size() != n - 1) return;
	for (int f = 0; f < 2; ++f) { auto& s = f ? q : r; for (int i = 0; i < n - 1; ++i) { real h = x[i + 1] - x[i]; sym_eq(s[i].x, x[i], "abscissa"); sym_near(s[i](x[i]), y[i], 1e-9, "left"); sym_near(s[i](x[i + 1]), y[i + 1], 1e-9, "right"); real d2 = 2 * s[i].c + 6 * s[i].d * h; if (i == 0) sym_near(s[i].c, 0, 1e-9, "start"); if (i == n - 2) sym_near(d2, 0, 1e-9, "end"); else { sym_near(s[i].deriv(x[i + 1]), s[i + 1].deriv(x[i + 1]), 1e-9, "first derivative"); sym_near(d2, 2 * s[i + 1].c, 1e-9, "second derivative"); } } }
	spline s(X, Y), u(p); for (int i = 0; i < n - 1; ++i) { real t = (x[i] + x[i + 1]) / 2, h = t - x[i], v = q[i].a + q[i].b * h + q[i].c * h * h + q[i].d * h * h * h, d = q[i].b + 2 * q[i].c * h + 3 * q[i].d * h * h; sym_near(s(t), v, 1e-9, "value"); sym_near(u(t), v, 1e-9, "value"); sym_near(s.deriv(t), d, 1e-9, "derivative"); }
	real h = -1, t = x[0] + h; sym_near(s(t), q[0].a + q[0].b * h + q[0].c * h * h + q[0].d * h * h * h, 1e-9, "before"); h = x[n - 1] + 1 - x[n - 2]; t = x[n - 1] + 1; auto& l = q[n - 2]; sym_near(s(t), l.a + l.b * h + l.c * h * h + l.d * h * h * h, 1e-9, "after");
}
HARNESS(large_evaluation, "t=60", "the spline of 10 points evaluates the piece that contains the point, every point") {
	const int n = 10; std::vector<real> X(n), Y(n); for (int i = 0; i < n; ++i) { X[i] = i * 0.5 + (i % 2) * 0.25; Y[i] = (i * 5) % 7; } spline s(X, Y); auto q = cubic_splines(X, Y); real x = sym_real("x"); int i = 0; while (i < n - 2 && x >= X[i + 1]) ++i; real h = x - X[i]; sym_eq(s(x), q[i].a + q[i].b * h + q[i].c * h * h + q[i].d * h * h * h, "value"); sym_eq(s.deriv(x), q[i].b + 2 * q[i].c * h + 3 * q[i].d * h * h, "derivative");
}
HARNESS(large_bezier, "t=60", "Bezier curves of 7, 8 (five components), 9, 12 and 16 (two components) points at nine parameters equal their Bernstein form") {
	static const int Z[] = {7, 8, 9, 12, 16}; int m = Z[sym_choose("m", 0, 4)], c = (int) sym_choose("t", 0, 8), n = m < 9 ? 5 : 2; real t = c / 8.0; std::vector<vec<real>> p(m); for (int i = 0; i < m; ++i) { p[i].resize(n); for (int j = 0; j < n; ++j) p[i][j] = sym_real_in(nm("p", 10 * i + j), -1, 1); } errno = 0; vec<real> r = bezier(p, t); sym_check(errno == 0 && (int) r.size() == n, "size"); for (int j = 0; j < n && j < (int) r.size(); ++j) { real s = 0, C = 1; for (int i = 0; i < m; ++i) { real b = C; for (int k = 0; k < i; ++k) b *= t; for (int k = i; k < m - 1; ++k) b *= 1 - t; s += b * p[i][j]; C = C * (m - 1 - i) / (i + 1); } sym_near(r[j], s, 1e-9, "Bernstein"); }
}
HARNESS(large_curves, "t=60", "linear, quadratic and cubic curves of 3, 5 and 9 components") { int k = (int) sym_choose("k", 0, 3); if (k == 0) curves<3>(3); else if (k == 1) curves<0>(5); else if (k == 2) curves<0>(9); else curves<8>(8); }
HARNESS(slerp_angles, "t=60 mode=fp libm", "spherical interpolation at angles from 0.002 to 3.13 radians, lengths 0.01 to 300, both orders, fixed and dynamic vectors of three components; the result at the ends is the end") {
	static const real W[] = {0.002, 0.01, 0.04, 0.3, 1, 2, 3, 3.1, 3.13}, T[] = {0, 0.125, 0.5, 0.9, 1}, L[] = {0.01, 1, 300}; real w = W[sym_choose("w", 0, 8)], t = T[sym_choose("t", 0, 4)], l = L[sym_choose("l", 0, 2)], c = th::cos(w), s = th::sin(w); vec3 A = {0, l, 0}, B = {0, 2 * c, -2 * s}, r; if (sym_choose("swap", 0, 1)) { vec3 q = A; A = B; B = q; } errno = 0; r = slerp(A, B, t); vec<real> X = {A[0], A[1], A[2]}, Y = {B[0], B[1], B[2]}, q = slerp(X, Y, t); sym_check(errno == 0 && q.size() == 3, "no error"); real a = th::sin((1 - t) * w) / s, b = th::sin(t * w) / s, m = (l + 2) * 1e-5; if (w < 0.05 || w > 3.05) m = (l + 2) * 1e-3; for (int i = 0; i < 3; ++i) { real e = a * A[i] + b * B[i]; sym_check(r[i] - e <= m && e - r[i] <= m, "arc"); sym_check(q[i] - e <= m && e - q[i] <= m, "dynamic"); }
}
HARNESS(small_steps, "t=60 mode=fp", "smoothstep and smootherstep close to both edges, to relative accuracy") {
	static const real U[] = {1e-6, 1e-4, 0.0009, 0.01, 0.3}; real u = U[sym_choose("u", 0, 4)]; int k = (int) sym_choose("k", 0, 1); real a = k ? 2 : 0, b = k ? -2 : 1, x = a + u * (b - a), y = b - u * (b - a), s = u * u * (3 - 2 * u), g = u * u * u * (10 + u * (6 * u - 15)), p = smoothstep(a, b, x), q = smootherstep(a, b, x); sym_check(p >= s * (1 - 1e-6) && p <= s * (1 + 1e-6), "smoothstep"); sym_check(q >= g * (1 - 1e-6) && q <= g * (1 + 1e-6), "smootherstep"); p = smoothstep(a, b, y); q = smootherstep(a, b, y); sym_check(p - (1 - s) <= 1e-9 && 1 - s - p <= 1e-9, "upper edge"); sym_check(q - (1 - g) <= 1e-9 && 1 - g - q <= 1e-9, "upper edge");
}
HARNESS(slerp_extreme, "t=60 mode=fp libm", "spherical interpolation of vectors of lengths 1e-7, 1e-12 and 1e9, and at angles of 1e-4 and 2^-16: neither null nor parallel, the result is on the arc") {
	static const real L[] = {1e-12, 1e-7, 1, 1e9}, T[] = {0, 0.25, 0.5, 1}; real l = L[sym_choose("l", 0, 3)], t = T[sym_choose("t", 0, 3)]; int k = (int) sym_choose("k", 0, 2); vec3 A = {l, 0, 0}, B = {0, l, 0}; real w = PI / 2; if (k) { w = k == 1 ? 1e-4 : 1.0 / 65536; B = {l, l * w, 0}; } errno = 0; vec3 r = slerp(A, B, t); sym_check(errno == 0, "no error"); real x = k ? 1 : th::cos(t * w), y = k ? t * w : th::sin(t * w), m = k ? 1e-6 : 1e-9; sym_check(r[0] / l - x <= m && x - r[0] / l <= m && r[1] / l - y <= m && y - r[1] / l <= m && r[2] == 0, "arc");
}
HARNESS(scales, "mode=fp t=60", "splines of six points with abscissae scaled by 1e-9, 1e-3, 1e5 and ordinates by 1e-12, 1 and 1e9: values, derivatives at and between the points are the scaled ones; lerp, invlerp, remap, smoothstep and smootherstep of scaled ends") {
	static const real SX[] = {1e-9, 1e-3, 1e5}, SY[] = {1e-12, 1, 1e9}, X[] = {-3, -1, 0.5, 1, 4, 5}, Y[] = {2, -1, 0, 3, 1, 7}; real sx = SX[sym_choose("x", 0, 2)], sy = SY[sym_choose("y", 0, 2)]; std::vector<vec2> p(6), q(6); std::vector<real> x(6), y(6); for (int i = 0; i < 6; ++i) { q[i] = {X[i], Y[i]}; p[i] = {X[i] * sx, Y[i] * sy}; x[i] = X[i] * sx; y[i] = Y[i] * sy; } errno = 0; spline a(p), b(q), c(x, y); sym_check(errno == 0, "no error"); for (int i = 0; i < 6; ++i) sym_near(a(x[i]) / sy, Y[i], 1e-8, "point"); for (int i = 0; i <= 16; ++i) { real t = -3 + i * 0.5, l = -2.96875 + i * 0.46875; sym_near(a(t * sx) / sy, b(t), 1e-7, "value"); sym_near(c(t * sx) / sy, b(t), 1e-7, "value, two datasets"); sym_near(a.deriv(l * sx) / sy * sx, b.deriv(l), 1e-6, "derivative"); }
	for (int i = -1; i <= 5; ++i) { real t = i * 0.25, u = t < 0 ? 0 : t > 1 ? 1 : t; sym_near(lerp(-3 * sy, 5 * sy, t) / sy, -3 + 8 * t, 1e-9, "lerp"); sym_near(invlerp(-3 * sx, 5 * sx, (-3 + 8 * t) * sx), t, 1e-9, "invlerp"); sym_near(remap(-3 * sx, 5 * sx, 2 * sy, -2 * sy, (-3 + 8 * t) * sx) / sy, 2 - 4 * t, 1e-9, "remap"); sym_near(smoothstep(-3 * sx, 5 * sx, (-3 + 8 * t) * sx), u * u * (3 - 2 * u), 1e-9, "smoothstep"); sym_near(smootherstep(-3 * sx, 5 * sx, (-3 + 8 * t) * sx), u * u * u * (u * (6 * u - 15) + 10), 1e-9, "smootherstep"); }
}
