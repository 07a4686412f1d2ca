// C26 extrema
// FLAGS: -DTHEORETICA_OPTIMIZATION_TOL=0.0625
#include "sym.h"
#include <vector>
#include "theoretica.h"
using namespace theoretica;
namespace th = theoretica;
static real ab(real x) { return x < 0 ? -x : x; }
typedef std::function<real(real)> G;
HARNESS(golden, "t=100", "golden section search ends within half the tolerance of the vertex of every unimodal parabola and asymmetric cone on the interval, vertices at and outside the ends included") {
	int k = (int) sym_choose("k", 0, 1), mx = (int) sym_choose("max", 0, 1); real a = -0.5, b = 0.5, v = sym_real_in("v", -1, 1), c = mx ? -1 : 1; G f; if (k == 0) f = [c, v](real x) { return c * (x - v) * (x - v); }; else f = [c, v](real x) { return c * (x < v ? 3 * (v - x) : x - v); }; errno = 0; real x = mx ? maximize_goldensection(f, a, b) : minimize_goldensection(f, a, b); sym_check(errno == 0, "no error"); real e = v < a ? a : v > b ? b : v; sym_check(ab(x - e) <= 0.0625 / 2 + 1E-9, "extremum"); sym_check(x >= a && x <= b, "inside");
}
HARNESS(golden_interval, "t=100", "golden section search on any interval: short intervals give their middle, reversed intervals are an error") {
	real a = sym_real_in("a", -4, 4), d = sym_real_in("d", 0, 0.0625), e = sym_real_in("e", 0.001, 4); auto f = [](real x) { return x; }; errno = 0; sym_eq(minimize_goldensection(f, a, a + d), a + d / 2, "minimum"); sym_eq(maximize_goldensection(f, a, a + d), a + d / 2, "maximum"); sym_check(errno == 0, "no error"); real x = minimize_goldensection(f, a, a - e); sym_check(errno == EINVAL && sym_isnan(x), "reversed minimum"); errno = 0; x = maximize_goldensection(f, a, a - e); sym_check(errno == EINVAL && sym_isnan(x), "reversed maximum");
}
HARNESS(golden_shift, "t=100", "golden section search of a parabola on any interval of length one") {
	real a = sym_real_in("a", -4, 4), v = sym_real("v"); sym_assume(v >= a && v <= a + 1); int mx = (int) sym_choose("max", 0, 1); real c = mx ? -2 : 2; auto f = [c, v](real x) { return c * (x - v) * (x - v) + 1; }; errno = 0; real x = mx ? maximize_goldensection(f, a, a + 1) : minimize_goldensection(f, a, a + 1); sym_check(errno == 0, "no error"); sym_check(ab(x - v) <= 0.0625 / 2 + 1E-9, "extremum");
}
HARNESS(newton, "t=60", "Newton extrema of every parabola from every guess: the vertex when the curvature has the right sign, an error with NaN result otherwise") {
	int mx = (int) sym_choose("max", 0, 1); real a = sym_real("a"), b = sym_real("b"), x0 = sym_real("x"); sym_assume(a != 0); G f = [a, b](real x) { return a * x * x + b * x; }, d = [a, b](real x) { return 2 * a * x + b; }, e = [a](real) { return 2 * a; }; errno = 0; real x = mx ? maximize_newton(f, d, e, x0) : minimize_newton(f, d, e, x0); if ((a < 0) == (mx == 1)) { sym_check(errno == 0, "no error"); sym_eq(x, -b / (2 * a), "vertex"); } else { sym_check(errno == ERANGE && sym_isnan(x), "wrong curvature"); }
}
HARNESS(bisection, "t=60", "bisection extrema: within the tolerance of the stationary point when it is of the right kind, an error with NaN result otherwise or without a sign change of the derivative") {
	int mx = (int) sym_choose("max", 0, 1); static const real A[] = {1, -2, 0.01, -0.001}; real a = A[sym_choose("a", 0, 3)], v = sym_real_in("v", -2, 2); G f = [a, v](real x) { return a * (x - v) * (x - v); }, d = [a, v](real x) { return 2 * a * (x - v); }; errno = 0; real x = mx ? maximize_bisection(f, d, -0.5, 1.0) : minimize_bisection(f, d, -0.5, 1.0); if (v <= -0.5 || v >= 1) { sym_check(errno != 0 && sym_isnan(x), "outside"); return; } if ((a < 0) == (mx == 1)) { sym_check(errno == 0, "no error"); sym_check(ab(x - v) <= 0.0625, "extremum"); } else { sym_check(errno == ERANGE && sym_isnan(x), "wrong kind"); }
}
static real P[4];
template<unsigned N> static multidual<N> up(vec<multidual<N>, N> x) { return P[2] * (square(x[0] - P[0]) + square(x[1] - P[1])); }
template<unsigned N> static void gradient_search(int m, int k) {
	real x = sym_real("x"), y = sym_real("y"); P[0] = sym_real("p"); P[1] = sym_real("q"); P[2] = m ? -1 : 1; vec<real, N> g, r; g.resize(2); g[0] = x; g[1] = y; unsigned it = (unsigned) sym_choose("it", 0, 3); errno = 0;
	// gamma = -1/2: one exact step; gamma = -1/4: the distance halves at each step
	real gm = k ? -0.25 : -0.5, tol = 0.5; r = m ? multi_maximize_grad<N>(up<N>, g, gm, tol, it) : multi_minimize_grad<N>(up<N>, g, gm, tol, it); sym_check(r.size() == 2, "size"); if (r.size() != 2) return; real dx = x - P[0], dy = y - P[1], f = k ? 0.5 : 0; bool ok = false; real s = 1; for (unsigned i = 0; i < it && !ok; ++i) { if (4 * s * s * (dx * dx + dy * dy) <= tol * tol) ok = true; s *= f; } if (ok) { sym_check(errno == 0, "no error"); sym_eq(r[0], P[0] + s * dx, "extremum"); sym_eq(r[1], P[1] + s * dy, "extremum"); } else { sym_check(errno == ERANGE && sym_isnan(r[0]) && sym_isnan(r[1]), "no convergence"); } sym_eq(g[0], x, "guess");
}
HARNESS(fixed_step, "t=100", "fixed-step gradient descent and ascent on every paraboloid from every guess make their steps until the gradient is within the given tolerance, and report non-convergence, in fixed and dynamic vectors") {
	int m = (int) sym_choose("max", 0, 1), k = (int) sym_choose("k", 0, 1); if (sym_choose("dynamic", 0, 1)) gradient_search<0>(m, k); else gradient_search<2>(m, k);
}
HARNESS(step_sign, "t=60", "a step size which is not negative is an error with NaN result, for minima and maxima") {
	real gm = sym_real_in("g", 0, 4); vec2 g = {1, 2}; P[0] = P[1] = 0; P[2] = 1; errno = 0; vec2 r = multi_minimize_grad<2>(up<2>, g, gm); sym_check(errno == EINVAL && sym_isnan(r[0]) && sym_isnan(r[1]), "minimum"); errno = 0; r = multi_maximize_grad<2>(up<2>, g, gm); sym_check(errno == EINVAL && sym_isnan(r[0]) && sym_isnan(r[1]), "maximum"); vec<real> h = {1.0, 2.0}; errno = 0; vec<real> q = multi_minimize_grad<0>(up<0>, h, gm); sym_check(errno == EINVAL && q.size() == 2 && sym_isnan(q[0]), "dynamic");
}
template<unsigned N> static void line_search(int m, real tol) {
	real x = sym_real_in("x", -1, 1), y = sym_real_in("y", -1, 1); P[0] = 0.25; P[1] = -0.5; P[2] = m % 2 ? -1 : 1; vec<real, N> g, r; g.resize(2); g[0] = x; g[1] = y; errno = 0; switch (m) { case 0: r = multi_minimize_lingrad<N>(up<N>, g, tol); break; case 1: r = multi_maximize_lingrad<N>(up<N>, g, tol); break; case 2: r = multi_minimize<N>(up<N>, g, tol); break; default: r = multi_maximize<N>(up<N>, g, tol); } sym_check(errno == 0 && r.size() == 2, "no error"); if (r.size() != 2) return; real dx = r[0] - P[0], dy = r[1] - P[1]; sym_check(dx * dx + dy * dy <= tol * tol / 4, "extremum");
}
HARNESS(line_minima, "t=100", "gradient search with line minimisation ends within the tolerance of the extremum of a paraboloid from every guess in a box") {
	int m = (int) sym_choose("m", 0, 3); if (sym_choose("dynamic", 0, 1)) line_search<0>(m, 1); else line_search<2>(m, 0.5);
}
HARNESS(line_errors, "t=60", "gradient search with line minimisation reports non-convergence within the iterations given") {
	real x = sym_real_in("x", 1, 2); vec2 g = {x, 2}, r; P[0] = P[1] = 0; P[2] = 1; errno = 0; r = multi_minimize_lingrad<2>(up<2>, g, 0.5, 0); sym_check(errno == ERANGE && sym_isnan(r[0]) && sym_isnan(r[1]), "minimum"); P[2] = -1; errno = 0; r = multi_maximize_lingrad<2>(up<2>, g, 0.5, 0); sym_check(errno == ERANGE && sym_isnan(r[0]) && sym_isnan(r[1]), "maximum");
}
HARNESS(line_last, "t=100", "gradient search with line minimisation which converges in the last iteration allowed is not an error") {
	real x = sym_real_in("x", -0.125, 0.125); vec2 g = {x, 0.0625}, r; P[0] = P[1] = 0; P[2] = 1; errno = 0; r = multi_minimize_lingrad<2>(up<2>, g, 0.5, 1); sym_check(errno == 0 && !sym_isnan(r[0]), "minimum"); sym_check(r[0] * r[0] + r[1] * r[1] <= 0.0625, "near the minimum"); P[2] = -1; errno = 0; r = multi_maximize_lingrad<2>(up<2>, g, 0.5, 1); sym_check(errno == 0 && !sym_isnan(r[0]), "maximum"); sym_check(r[0] * r[0] + r[1] * r[1] <= 0.0625, "near the maximum");
}
HARNESS(golden_huge, "t=60 mode=fp", "golden section search on intervals too wide for the allowed iterations is an error with NaN result; wide intervals within them end at the vertex") {
	int k = (int) sym_choose("k", 0, 3), mx = (int) sym_choose("max", 0, 1); static const real W[4] = {1e300, 1e40, 1e6, 512}; real w = W[k], c = mx ? -1 : 1; auto f = [c](real x) { return c * (x < 3 ? 3 - x : x - 3); }; errno = 0; real x = mx ? maximize_goldensection(f, -w, w) : minimize_goldensection(f, -w, w);
	if (k < 2) sym_check(errno == ERANGE && sym_isnan(x), "no convergence"); else { sym_check(errno == 0, "no error"); sym_near(x, 3, OPTIMIZATION_TOL, "vertex"); }
}
template<unsigned N> static multidual<N> bowl(vec<multidual<N>, N> x) { multidual<N> r = P[2] * square(x[0] - P[0]); for (unsigned i = 1; i < x.size(); ++i) r = r + P[2] * square(x[i] - (real) i); return r; }
HARNESS(large_gradient, "t=100", "fixed-step gradient descent and ascent in 3..8 dimensions reach the extremum in one exact step from any guess, or halve the distance") {
	int n = (int) sym_choose("n", 3, 8), m = (int) sym_choose("max", 0, 1), k = (int) sym_choose("k", 0, 1); P[0] = sym_real("p"); P[2] = m ? -1 : 1; vec<real> g; g.resize(n); for (int i = 0; i < n; ++i) g[i] = i == 0 ? sym_real("x") : i == n - 1 ? 16 : i - 2; errno = 0; real gm = k ? -0.25 : -0.5, tol = 0.5; vec<real> r = m ? multi_maximize_grad<0>(bowl<0>, g, gm, tol, 3) : multi_minimize_grad<0>(bowl<0>, g, gm, tol, 3); if (k) { sym_check(errno == ERANGE, "not within three steps"); sym_check((int) r.size() == n && sym_isnan(r[0]) && sym_isnan(r[n - 1]), "NaN"); return; } sym_check(errno == 0 && (int) r.size() == n, "no error"); if ((int) r.size() == n) for (int i = 0; i < n; ++i) sym_eq(r[i], i == 0 ? P[0] : i, "extremum");
}
HARNESS(large_extrema, "t=100 mode=fp libm", "golden section, Newton, bisection and line searches find the extrema of non-quadratic functions, four intervals or guesses") {
	int k = (int) sym_choose("k", 0, 5), s = (int) sym_choose("s", 0, 3), f = (int) sym_choose("f", 0, 2); static const real R[] = {0.6931471805599453, 1.5, 0.4501836112948736}; bool mx = k % 2; real c = mx ? -1 : 1, r = R[f]; G F = [f, c](real x) -> real { switch (f) { case 0: return c * (th::exp(x) - 2 * x); case 1: return c * ((x - 1.5) * (x - 1.5) * (1 + (x - 1.5) * (x - 1.5))); default: return c * (x * x - th::sin(x)); } }, D = [f, c](real x) -> real { real u = x - 1.5; switch (f) { case 0: return c * (th::exp(x) - 2); case 1: return c * (2 * u + 4 * u * u * u); default: return c * (2 * x - th::cos(x)); } }, E2 = [f, c](real x) -> real { real u = x - 1.5; switch (f) { case 0: return c * th::exp(x); case 1: return c * (2 + 12 * u * u); default: return c * (2 + th::sin(x)); } };
	real a = r - 0.75 - s * 0.3, b = r + 0.5 + s * 0.4, x; errno = 0; switch (k) { case 0: x = minimize_goldensection(F, a, b); break; case 1: x = maximize_goldensection(F, a, b); break; case 2: x = minimize_newton(F, D, E2, r + 0.25 - s * 0.125); break; case 3: x = maximize_newton(F, D, E2, r + 0.25 - s * 0.125); break; case 4: x = minimize_bisection(F, D, a, b); break; default: x = maximize_bisection(F, D, a, b); } sym_check(errno == 0, "no error"); sym_near(x, r, 0.0625, "extremum");
}
