// C26 extrema with the default tolerances
#define SYM_PREFIX fine_
#include "sym.h"
#include <vector>
#include "theoretica.h"
using namespace theoretica;
namespace th = theoretica;
static real ab(real x) { return x < 0 ? -x : x; }
typedef std::function<real(real)> G;
static real P[4];
template<unsigned N> static multidual<N> bowl(vec<multidual<N>, N> x) { return P[0] * square(x[0] - 1.0) + P[1] * square(x[1] + 2.0) + P[2] * (x[0] - 1.0) * (x[1] + 2.0); }
template<unsigned N> static void search(int m, real tol, real px, real py) {
	vec<real, N> g, r; g.resize(2); g[0] = px; g[1] = py; errno = 0;
	switch (m) { case 0: r = multi_minimize_grad<N>(bowl<N>, g, -0.125, tol); break; case 1: r = multi_maximize_grad<N>(bowl<N>, g, -0.125, tol); break; case 2: r = multi_minimize_lingrad<N>(bowl<N>, g, tol); break; case 3: r = multi_maximize_lingrad<N>(bowl<N>, g, tol); break; case 4: r = multi_minimize<N>(bowl<N>, g, tol); break; default: r = multi_maximize<N>(bowl<N>, g, tol); }
	sym_check(errno == 0 && r.size() == 2, "no error"); if (r.size() == 2) sym_check(ab(r[0] - 1) <= tol && ab(r[1] + 2) <= tol, "extremum");
}
static void multi(int m) {
	static const real T[] = {0.01, 1e-5}, S[4][3] = {{1, 1, 0}, {1, 2, 0.5}, {100, 100, 0}, {2000, 2000, 0}}, X[2][2] = {{3, -1}, {-4, 5}}; int c = (int) sym_choose("tol", 0, 1), s = (int) sym_choose("shape", 0, 3), g = (int) sym_choose("guess", 0, 1); if ((m < 2 && s >= 2) || (s == 1 && g != c)) return; for (int i = 0; i < 3; ++i) P[i] = m % 2 ? -S[s][i] : S[s][i]; if (g) search<0>(m, T[c], X[g][0], X[g][1]); else search<2>(m, T[c], X[g][0], X[g][1]);
}
HARNESS(minimize_grad, "t=240 mode=fp libm max_instr=400000000 max_path_instr=100000000", "multi_minimize_grad ends within the given tolerance, 1e-2 and 1e-5, of the extremum of bowls of four shapes from two guesses, fixed and dynamic vectors") { multi(0); }
HARNESS(maximize_grad, "t=240 mode=fp libm max_instr=400000000 max_path_instr=100000000", "multi_maximize_grad ends within the given tolerance, 1e-2 and 1e-5, of the extremum of bowls of four shapes from two guesses, fixed and dynamic vectors") { multi(1); }
HARNESS(minimize_lingrad, "t=240 mode=fp libm max_instr=400000000 max_path_instr=100000000", "multi_minimize_lingrad ends within the given tolerance, 1e-2 and 1e-5, of the extremum of bowls of four shapes from two guesses, fixed and dynamic vectors") { multi(2); }
HARNESS(maximize_lingrad, "t=240 mode=fp libm max_instr=400000000 max_path_instr=100000000", "multi_maximize_lingrad ends within the given tolerance, 1e-2 and 1e-5, of the extremum of bowls of four shapes from two guesses, fixed and dynamic vectors") { multi(3); }
HARNESS(minimize_any, "t=240 mode=fp libm max_instr=400000000 max_path_instr=100000000", "multi_minimize ends within the given tolerance, 1e-2 and 1e-5, of the extremum of bowls of four shapes from two guesses, fixed and dynamic vectors") { multi(4); }
HARNESS(maximize_any, "t=240 mode=fp libm max_instr=400000000 max_path_instr=100000000", "multi_maximize ends within the given tolerance, 1e-2 and 1e-5, of the extremum of bowls of four shapes from two guesses, fixed and dynamic vectors") { multi(5); }
HARNESS(univariate, "t=100 mode=fp libm", "golden section, Newton and bisection extrema of c ((x-v)^2 + (x-v)^4) for c = 1e-6 .. 1e6 and vertices in all parts of the interval, also with the forms which choose the method; the wrong curvature is an error") {
	static const real C[] = {1e-6, 0.001, 0.03, 1, 40, 1e6}; int k = (int) sym_choose("k", 0, 5), j = (int) sym_choose("c", 0, 5), i = (int) sym_choose("v", 0, 4); bool mx = k % 2; real c = mx ? -C[j] : C[j], v = -2 + i * 1.1; G F = [c, v](real x) -> real { real u = x - v; return c * (u * u + u * u * u * u); }, D = [c, v](real x) -> real { real u = x - v; return c * (2 * u + 4 * u * u * u); }, E = [c, v](real x) -> real { real u = x - v; return c * (2 + 12 * u * u); };
	errno = 0; real x; switch (k) { case 0: x = minimize_goldensection(F, -3, 4); break; case 1: x = maximize_goldensection(F, -3, 4); break; case 2: x = minimize_newton(F, D, E, v + 0.3); break; case 3: x = maximize_newton(F, D, E, v - 0.4); break; case 4: x = minimize_bisection(F, D, -3, 4); break; default: x = maximize_bisection(F, D, -3, 4); } sym_check(errno == 0, "no error"); real tol = k < 2 ? 1e-6 : k < 4 ? 1e-7 / C[j] + 1e-7 : 1e-7; sym_check(ab(x - v) <= tol, "extremum");
	if (k >= 2) { errno = 0; switch (k) { case 2: x = maximize_newton(F, D, E, v + 0.3); break; case 3: x = minimize_newton(F, D, E, v - 0.4); break; case 4: x = maximize_bisection(F, D, -3, 4); break; default: x = minimize_bisection(F, D, -3, 4); } sym_check(errno == ERANGE && sym_isnan(x), "wrong kind"); }
}
HARNESS(flat, "t=60 mode=fp", "Newton extrema of x^4 started at the extremum, where the second derivative is null, return it") {
	typedef real (*R)(real); R f = [](real x) { return x * x * x * x; }, Df = [](real x) { return 4 * x * x * x; }, D2f = [](real x) { return 12 * x * x; }, g = [](real x) { return -x * x * x * x; }, Dg = [](real x) { return -4 * x * x * x; }, D2g = [](real x) { return -12 * x * x; }; errno = 0; real a = minimize_newton(f, Df, D2f, 0), b = maximize_newton(g, Dg, D2g, 0); sym_check(a == 0 && b == 0 && errno == 0, "extremum");
}
HARNESS(divergence, "t=100 mode=fp max_instr=400000000 max_path_instr=100000000", "gradient searches which diverge (steps too large, functions without extremum) end with NaN and an errno, or within the iterations allowed, fixed and dynamic vectors") {
	static const real S[][3] = {{1000, 1000, 0}, {-1, -1, 0}, {1, -1, 0}}; int m = (int) sym_choose("m", 0, 3), d = (int) sym_choose("d", 0, 1), s = m < 2 ? 0 : 1 + d; for (int i = 0; i < 3; ++i) P[i] = m % 2 ? -S[s][i] : S[s][i]; vec<real, 2> g = {3, -1}, r; vec<real> gd = {3, -1}, rd; errno = 0; unsigned it = m < 2 ? 400 : 8;
	if (d) { switch (m) { case 0: rd = multi_minimize_grad<0>(bowl<0>, gd, -0.5, 1e-3, it); break; case 1: rd = multi_maximize_grad<0>(bowl<0>, gd, -0.5, 1e-3, it); break; case 2: rd = multi_minimize_lingrad<0>(bowl<0>, gd, 1e-3, it); break; default: rd = multi_maximize_lingrad<0>(bowl<0>, gd, 1e-3, it); } sym_check(rd.size() == 2, "size"); if (rd.size() == 2) { r[0] = rd[0]; r[1] = rd[1]; } }
	else switch (m) { case 0: r = multi_minimize_grad<2>(bowl<2>, g, -0.5, 1e-3, it); break; case 1: r = multi_maximize_grad<2>(bowl<2>, g, -0.5, 1e-3, it); break; case 2: r = multi_minimize_lingrad<2>(bowl<2>, g, 1e-3, it); break; default: r = multi_maximize_lingrad<2>(bowl<2>, g, 1e-3, it); }
	sym_check(sym_isnan(r[0]) && sym_isnan(r[1]), "NaN"); sym_check(errno == ERANGE, "reported");
}
