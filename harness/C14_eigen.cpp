// C14 eigensolvers on given matrices, in IEEE arithmetic
#define SYM_PREFIX eigen_
#include "sym.h"
#include "theoretica.h"
using namespace theoretica;
namespace th = theoretica;
typedef mat<real> M;
typedef vec<real> V;
struct sample { int n; real a[9]; real l[3]; };   // eigenvalues in order of magnitude
static const sample S[8] = {
	{2, {2, 1, 1, 2}, {1, 3}}, {2, {4, 1, 2, 3}, {2, 5}}, {2, {-5, 2, 2, -2}, {-1, -6}}, {2, {0.5, 0, 3, -4}, {0.5, -4}},
	{3, {2, -1, 0, -1, 2, -1, 0, -1, 2}, {0.58578643762690495, 2, 3.4142135623730951}}, {3, {6, 0, 0, 0, 1, 0, 0, 0, -3}, {1, -3, 6}},
	{3, {1, 2, 3, 0, -4, 5, 0, 0, 9}, {1, -4, 9}}, {3, {1, 1, 0, 1, 4, 1, 0, 1, 10}, {0.6879542207619131, 4.146920714830645, 10.165125064407437}}
};
static M get(const sample& s) { M A(s.n, s.n); for (int i = 0; i < s.n; ++i) for (int j = 0; j < s.n; ++j) A(i, j) = s.a[i * s.n + j]; return A; }
static V start(int n, int k) { V x(n); for (int i = 0; i < n; ++i) x[i] = k == 0 ? 1 + 0.3 * i : k == 1 ? 2 - 0.7 * i : (i == 0 ? -1.5 : 0.6 * i + 0.25); return x; }
// v is a unit vector with A v = l v
static void pair(const M& A, const V& v, real l, const char* id) {
	real q = 0;
	for (unsigned i = 0; i < A.rows(); ++i) { real s = 0; for (unsigned j = 0; j < A.cols(); ++j) s += A(i, j) * v[j]; sym_near(s, l * v[i], 1e-5, id); q += v[i] * v[i]; }
	sym_near(q, 1, 1e-8, id);
}
HARNESS(extreme, "t=240 mode=fp", "power and inverse power methods converge to the eigenvalue of largest and smallest magnitude and its unit eigenvector: 8 matrices up to 3x3, 3 starting vectors") {
	int k = (int) sym_choose("matrix", 0, 7), c = (int) sym_choose("start", 0, 2);
	const sample& s = S[k]; M A = get(s); V x = start(s.n, c), v(s.n), w(s.n), x0 = x;
	real big = s.l[s.n - 1], small = s.l[0], tol = 1e-6;
	errno = 0;
	sym_near(algebra::eigenvalue_power(A, x), big, tol, "largest"); sym_near(algebra::eigenpair_power(A, x, v), big, tol, "largest pair"); pair(A, v, big, "largest vector");
	sym_near(algebra::eigenvalue_inverse(A, x), small, tol, "smallest"); sym_near(algebra::eigenpair_inverse(A, x, w), small, tol, "smallest pair"); pair(A, w, small, "smallest vector");
	for (int i = 0; i < s.n; ++i) sym_check(x[i] == x0[i], "start unchanged");
	sym_check(errno == 0, "no error");
}
HARNESS(shifted, "t=240 mode=fp", "the shifted inverse method gives the eigenvector of the eigenvalue nearest to the shift; Rayleigh iteration an eigenvalue and unit eigenvector: all eigenvalues of 8 matrices, shifts to both sides") {
	int k = (int) sym_choose("matrix", 0, 7), c = (int) sym_choose("start", 0, 1), e = (int) sym_choose("value", 0, 2), d = (int) sym_choose("side", 0, 1);
	const sample& s = S[k]; if (e >= s.n) return;
	M A = get(s), A0 = A; V x = start(s.n, c), v(s.n);
	real l = s.l[e] + (d ? 0.015625 : -0.03125);
	errno = 0;
	V u = algebra::eigenvector_inverse(A, l, x); pair(A, u, s.l[e], "vector");
	sym_check(errno == 0, "no error");
	real r = algebra::eigenvalue_rayleigh(A, l, x), p = algebra::eigenpair_rayleigh(A, l, x, v);
	if (errno == 0) { pair(A, v, p, "rayleigh vector"); sym_near(r, p, 1e-5, "rayleigh value"); real best = 1e9; for (int i = 0; i < s.n; ++i) if (th::abs(p - s.l[i]) < best) best = th::abs(p - s.l[i]); sym_check(best < 1e-4, "rayleigh eigenvalue"); sym_near(p, s.l[e], 1e-4, "nearest"); }
	else sym_check(errno == ERANGE, "only non-convergence may be reported");
	for (int i = 0; i < s.n; ++i) for (int j = 0; j < s.n; ++j) sym_check(A(i, j) == A0(i, j), "matrix unchanged");
}
