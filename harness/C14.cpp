// C14 decompositions, linear systems, inverse, determinant, eigenvalues
#include "sym.h"
#include <vector>
#include "theoretica.h"
using namespace theoretica;
namespace th = theoretica;
typedef complex<real> cx;
typedef mat<real> M;
typedef vec<real> V;
static real ent(const char* n, int i, int j) { return sym_real(nm(n, i, j)); }
static real box(const char* n, int i, int j, real b) { return sym_real_in(nm(n, i, j), -b, b); }
template<typename A> static A min_(const char* n, int r, int c) { A m; m.resize(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = ent(n, i, j); return m; }
template<typename W> static W vin(const char* n, int k) { W v; v.resize(k); for (int i = 0; i < k; ++i) v[i] = sym_real(nm(n, i)); return v; }
template<typename A> static bool iserr(const A& m) { bool r = true; for (unsigned i = 0; i < m.rows() && i < m.cols(); ++i) r = r && sym_isnan(m(i, i)); return r; }
template<typename W> static bool allnan(const W& v) { bool r = true; for (unsigned i = 0; i < v.size(); ++i) r = r && sym_isnan(v[i]); return r; }
template<typename A, typename W, typename X> static void solves(const A& a, const W& x, const X& b, const char* id) { for (unsigned i = 0; i < a.rows(); ++i) { real s = 0; for (unsigned j = 0; j < a.cols(); ++j) s += a(i, j) * x[j]; sym_eq(s, b[i], id); } }
static bool big(real x, real t) { return x >= t || x <= -t; }
static real det2(const M& a) { return a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0); }
static real det3(const M& a) { return a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0)) + a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0)); }

template<typename A> static void lu(int n) {
	A a = min_<A>("a", n, n), a0 = a, L = min_<A>("x", n, n), U = min_<A>("y", n, n); // preallocated factors hold arbitrary values
	sym_assume(a(0, 0) != 0); if (n >= 3) sym_assume(a(0, 0) * a(1, 1) != a(0, 1) * a(1, 0));
	errno = 0; algebra::decompose_lu(a, L, U); sym_check(errno == 0, "no error");
	A P = a; algebra::decompose_lu_inplace(P);
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
		real s = 0; for (int k = 0; k < n; ++k) s += L(i, k) * U(k, j);
		sym_eq(s, a0(i, j), "L U = A");
		if (i == j) sym_eq(L(i, j), 1, "unit diagonal"); if (j > i) sym_eq(L(i, j), 0, "L lower"); if (j < i) sym_eq(U(i, j), 0, "U upper");
		sym_eq(P(i, j), j < i ? L(i, j) : U(i, j), "in place"); sym_eq(a(i, j), a0(i, j), "operand unchanged");
	}
}
HARNESS(lu_1, "t=60", "LU decomposition 1x1") { lu<M>(1); }
HARNESS(lu_2, "t=60", "LU decomposition: L unit lower, U upper, L U = A, whatever the factors held; dynamic 2x2") { lu<M>(2); }
HARNESS(lu_3, "t=120", "LU decomposition, dynamic 3x3 with non-null leading minors") { lu<M>(3); }
HARNESS(lu_s2, "t=60", "LU decomposition, fixed 2x2") { lu<mat<real, 2, 2>>(2); }
HARNESS(lu_empty, "t=60", "factors are allocated when empty; non-square matrices are rejected") {
	int r = (int) sym_choose("r", 1, 3), c = (int) sym_choose("c", 1, 3);
	M a = min_<M>("a", r, c), L, U; if (r == c) algebra::make_identity(a);
	errno = 0; algebra::decompose_lu(a, L, U);
	sym_check(errno == (r == c ? 0 : EINVAL), "square only"); sym_check(L.rows() == (unsigned) r && U.cols() == (unsigned) c, "allocated"); if (r != c) sym_check(iserr(L) && iserr(U), "error value");
	errno = 0; algebra::decompose_lu_inplace(a); sym_check(errno == (r == c ? 0 : EINVAL), "square only in place");
}
HARNESS(lu_complex, "t=60", "LU decomposition of complex 2x2 matrices") {
	mat<cx> a; a.resize(2, 2); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) a(i, j) = cx(ent("a", i, j), ent("b", i, j));
	sym_assume(a(0, 0).a * a(0, 0).a + a(0, 0).b * a(0, 0).b >= 1);
	mat<cx> L, U, P = a; algebra::decompose_lu(a, L, U); algebra::decompose_lu_inplace(P);
	for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { real s = 0, t = 0; for (int k = 0; k < 2; ++k) { s += L(i, k).a * U(k, j).a - L(i, k).b * U(k, j).b; t += L(i, k).a * U(k, j).b + L(i, k).b * U(k, j).a; } sym_eq(s, a(i, j).a, "Re"); sym_eq(t, a(i, j).b, "Im"); sym_eq(P(i, j).a, (j < i ? L : U)(i, j).a, "in place"); sym_eq(P(i, j).b, (j < i ? L : U)(i, j).b, "in place"); }
}

static void cholesky(int n) {
	M B(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) B(i, j) = i == j ? sym_real_in(nm("b", i, j), 0.125, 16) : box("b", i, j, 16);
	M a(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { real s = 0; for (int k = 0; k < n; ++k) s += B(i, k) * B(j, k); a(i, j) = s; } // every positive definite matrix has this form
	errno = 0; M L = algebra::decompose_cholesky(a), P = a; algebra::decompose_cholesky_inplace(P); sym_check(errno == 0, "no error");
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { sym_eq(L(i, j), j <= i ? B(i, j) : 0, "factor"); sym_eq(P(i, j), j <= i ? B(i, j) : 0, "in place"); }
	V b = vin<V>("v", n), x = algebra::solve_cholesky(L, b); solves(a, x, b, "solve_cholesky");
}
HARNESS(cholesky_1, "t=60", "Cholesky factor and solution, 1x1") { cholesky(1); }
HARNESS(cholesky_2, "t=60", "Cholesky factor of every positive definite 2x2 matrix and solution with it") { cholesky(2); }
HARNESS(cholesky_3, "t=120", "the same, 3x3") { cholesky(3); }
HARNESS(cholesky_rejects, "t=60", "matrices which are not square, not symmetric or not positive definite are rejected") {
	int r = (int) sym_choose("r", 1, 3), c = (int) sym_choose("c", 1, 3);
	if (r != c) { M a = min_<M>("a", r, c); errno = 0; M L = algebra::decompose_cholesky(a); sym_check(errno == EINVAL && iserr(L), "not square"); errno = 0; algebra::decompose_cholesky_inplace(a); sym_check(errno == EINVAL && iserr(a), "not square in place"); return; }
	if (r != 2) return;
	M a(2, 2); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) a(i, j) = box("a", i, j, 8);
	bool sym = !big(a(0, 1) - a(1, 0), 1e-3); sym_assume(!sym || a(0, 1) == a(1, 0));
	real m = det2(a); sym_assume(big(a(0, 0), 1e-3) && big(m, 1e-3));
	errno = 0; M L = algebra::decompose_cholesky(a);
	if (sym && a(0, 0) > 0 && m > 0) sym_check(errno == 0, "accepted"); else sym_check(errno == EINVAL && iserr(L), "rejected");
}

template<typename A, typename W> static void triangular(int n) {
	A l, u; l.resize(n, n); u.resize(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { l(i, j) = j <= i ? ent("l", i, j) : 0; u(i, j) = j >= i ? ent("u", i, j) : 0; }
	W b = vin<W>("b", n);
	bool ol = true, ou = true; for (int i = 0; i < n; ++i) { ol = ol && big(l(i, i), MACH_EPSILON); ou = ou && big(u(i, i), MACH_EPSILON); }
	errno = 0; W x = algebra::solve_triangular_lower(l, b); sym_check(x.size() == (unsigned) n, "size");
	if (ol) { sym_check(errno == 0, "no error"); solves(l, x, b, "lower"); } else sym_check(errno == ERANGE && allnan(x), "lower, null pivot");
	errno = 0; x = algebra::solve_triangular_upper(u, b);
	if (ou) { sym_check(errno == 0, "no error"); solves(u, x, b, "upper"); } else sym_check(errno == ERANGE && allnan(x), "upper, null pivot");
}
HARNESS(triangular_1, "t=60", "triangular systems 1x1: solution or reported null pivot") { triangular<M, V>(1); }
HARNESS(triangular_2, "t=60", "triangular systems 2x2") { triangular<M, V>(2); }
HARNESS(triangular_3, "t=60", "triangular systems 3x3") { triangular<M, V>(3); }
HARNESS(triangular_4, "t=60 tier=thorough", "triangular systems 4x4") { triangular<M, V>(4); }
HARNESS(triangular_s3, "t=60", "triangular systems, fixed 3x3") { triangular<mat<real, 3, 3>, vec<real, 3>>(3); }
HARNESS(triangular_dispatch, "t=60", "solve_triangular picks the solver of the shape and rejects other matrices; 2x2") {
	M a = min_<M>("a", 2, 2); V b = vin<V>("b", 2); sym_assume(big(a(0, 0), 1) && big(a(1, 1), 1));
	sym_assume(a(0, 1) == 0 || big(a(0, 1), 1)); sym_assume(a(1, 0) == 0 || big(a(1, 0), 1));
	errno = 0; V x = algebra::solve_triangular(a, b);
	if (a(0, 1) == 0 || a(1, 0) == 0) { sym_check(errno == 0, "no error"); solves(a, x, b, "solution"); } else sym_check(errno == EINVAL && allnan(x), "not triangular");
}
template<typename A, typename W> static void linear(int n, real b_) {
	A a; a.resize(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a(i, j) = b_ > 0 ? box("a", i, j, b_) : ent("a", i, j);
	W b = vin<W>("b", n), b0 = b; A a0 = a;
	errno = 0; W x = algebra::solve(a, b);
	if (errno == 0) solves(a, x, b, "A x = b"); else sym_check(errno == ERANGE && allnan(x), "singular");
	for (int i = 0; i < n; ++i) { sym_eq(b[i], b0[i], "operand unchanged"); for (int j = 0; j < n; ++j) sym_eq(a(i, j), a0(i, j), "operand unchanged"); }
}
HARNESS(solve_1, "t=60", "solve: A x = b, 1x1") { linear<M, V>(1, 0); }
HARNESS(solve_2, "t=60", "solve: A x = b for every 2x2 matrix unless reported singular") { linear<M, V>(2, 0); }
HARNESS(solve_s2, "t=60", "the same, fixed 2x2") { linear<mat<real, 2, 2>, vec<real, 2>>(2, 0); }
HARNESS(solve_3, "t=120", "solve: A x = b for every 3x3 matrix unless reported singular") { linear<M, V>(3, 0); }
HARNESS(solve_regular_2, "t=60", "no 2x2 system with |a| <= 8 and |det| >= 1/1000 is reported singular") {
	M a(2, 2); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) a(i, j) = box("a", i, j, 8); V b = vin<V>("b", 2);
	sym_assume(big(det2(a), 1e-9)); errno = 0; V x = algebra::solve(a, b); sym_check(errno == 0, "regular");
}
HARNESS(solve_null_minor, "t=60", "3x3 systems whose leading minors vanish are solved: permuted triangular matrices") {
	int p = (int) sym_choose("p", 0, 5); static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
	M a(3, 3); for (int i = 0; i < 3; ++i) for (int j = i; j < 3; ++j) a(P[p][i], j) = i == j ? 2 : ent("a", i, j);
	V b = vin<V>("b", 3); errno = 0; V x = algebra::solve(a, b); sym_check(errno == 0, "no error"); solves(a, x, b, "A x = b");
}
HARNESS(solve_sizes, "t=60", "mismatching systems are rejected by every solver") {
	int r = (int) sym_choose("r", 1, 3), c = (int) sym_choose("c", 1, 3), n = (int) sym_choose("n", 1, 3); if (r == c && n == r) return;
	M a(r, c); algebra::make_identity(a); V b = vin<V>("b", n), y;
	errno = 0; y = algebra::solve(a, b); sym_check(errno == EINVAL && allnan(y), "solve"); errno = 0; y = algebra::solve_triangular_lower(a, b); sym_check(errno == EINVAL && allnan(y), "lower"); errno = 0; y = algebra::solve_triangular_upper(a, b); sym_check(errno == EINVAL && allnan(y), "upper");
	errno = 0; y = b; algebra::solve_lu_inplace(a, y); sym_check(errno == EINVAL && allnan(y), "lu in place"); errno = 0; y = algebra::solve_cholesky(a, b); sym_check(errno == EINVAL && allnan(y), "cholesky"); errno = 0; y = algebra::solve_lu(a, a, b); sym_check(errno == EINVAL && allnan(y), "lu");
}
HARNESS(solve_factors, "t=60", "solving with LU factors, separate and in place: L U x = b, 3x3") {
	M L(3, 3), U(3, 3), P(3, 3); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { L(i, j) = i == j ? 1 : j < i ? ent("l", i, j) : 0; U(i, j) = j >= i ? ent("u", i, j) : 0; P(i, j) = j < i ? L(i, j) : U(i, j); }
	bool ok = big(U(0, 0), MACH_EPSILON) && big(U(1, 1), MACH_EPSILON) && big(U(2, 2), MACH_EPSILON); V b = vin<V>("b", 3);
	errno = 0; V x = algebra::solve_lu(L, U, b);
	if (!ok) { sym_check(errno == ERANGE && allnan(x), "null pivot"); return; }
	sym_check(errno == 0, "no error"); solves(L * U, x, b, "L U x = b"); V y = b; V& z = algebra::solve_lu_inplace(P, y); sym_check(&z == &y, "returns its argument"); for (int i = 0; i < 3; ++i) sym_eq(y[i], x[i], "in place");
}
HARNESS(solve_complex, "t=60", "complex 2x2 systems") {
	mat<cx> a; a.resize(2, 2); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) a(i, j) = cx(ent("a", i, j), i == j ? ent("b", i, j) : 0); vec<cx> b; b.resize(2); for (int i = 0; i < 2; ++i) b[i] = cx(sym_real(nm("c", i)), sym_real(nm("d", i)));
	a(1, 0) = cx(0, 0);
	sym_assume(a(0, 0).sqr_norm() >= 1 && a(1, 1).sqr_norm() >= 1);
	vec<cx> x = algebra::solve(a, b);
	for (int i = 0; i < 2; ++i) { cx s = a(i, 0) * x[0] + a(i, 1) * x[1]; sym_eq(s.a, b[i].a, "Re"); sym_eq(s.b, b[i].b, "Im"); }
}
template<typename A> static void inverse_(int n) {
	A a = min_<A>("a", n, n), a0 = a;
	errno = 0; A v = algebra::inverse(a);
	if (errno == 0) {
		for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { real s = 0, t = 0; for (int k = 0; k < n; ++k) { s += a0(i, k) * v(k, j); t += v(i, k) * a0(k, j); } sym_eq(s, i == j ? 1 : 0, "A A^-1 = 1"); sym_eq(t, i == j ? 1 : 0, "A^-1 A = 1"); sym_eq(a(i, j), a0(i, j), "operand unchanged"); }
		A w = a; algebra::invert(w); A u = a; u.invert(); A z; z.resize(n, n); algebra::inverse(z, a);
		for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { sym_eq(w(i, j), v(i, j), "invert"); sym_eq(u(i, j), v(i, j), "member invert"); sym_eq(z(i, j), v(i, j), "inverse into"); }
	} else {
		sym_check(iserr(v), "error value");
		if (n == 1) sym_eq(a0(0, 0), 0, "only singular"); else if (n == 2) sym_eq(det2(M(a0)), 0, "only singular"); else sym_eq(det3(M(a0)), 0, "only singular");
	}
}
HARNESS(inverse_1, "t=60", "inverse 1x1") { inverse_<M>(1); }
HARNESS(inverse_2, "t=60", "A A^-1 = A^-1 A = 1 for every regular 2x2 matrix, error exactly for singular ones; all forms") { inverse_<M>(2); }
HARNESS(inverse_s2, "t=60", "the same, fixed") { inverse_<mat<real, 2, 2>>(2); }
HARNESS(inverse_3, "t=200 tier=thorough", "the same, 3x3") { inverse_<M>(3); }
HARNESS(inverse_3t, "t=60", "inverse of 3x3 matrices with a vanishing leading element or minor") {
	int p = (int) sym_choose("p", 0, 5); static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
	M a(3, 3); for (int i = 0; i < 3; ++i) for (int j = i; j < 3; ++j) a(P[p][i], j) = i == j ? 2 : ent("a", i, j);
	errno = 0; M v = algebra::inverse(a); sym_check(errno == 0, "no error");
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { real s = 0; for (int k = 0; k < 3; ++k) s += a(i, k) * v(k, j); sym_eq(s, i == j ? 1 : 0, "A A^-1 = 1"); }
}
HARNESS(inverse_shapes, "t=60", "non-square matrices and destinations of the wrong shape are rejected") {
	int r = (int) sym_choose("r", 1, 3), c = (int) sym_choose("c", 1, 3), p = (int) sym_choose("p", 1, 3), q = (int) sym_choose("q", 1, 3);
	M a(r, c), d(p, q); algebra::make_identity(a); errno = 0; algebra::inverse(d, a); if (r != c || p != r || q != c) sym_check(errno == EINVAL && iserr(d), "rejected"); else sym_check(errno == 0, "accepted");
	if (r != c) { errno = 0; M m = a; algebra::invert(m); sym_check(errno == EINVAL && iserr(m), "invert"); errno = 0; sym_check(sym_isnan(algebra::det(a)) && errno == EINVAL, "det"); }
}
HARNESS(det_12, "t=60", "determinant 1x1 and 2x2, every matrix, singular ones included; fixed and dynamic") {
	M a = min_<M>("a", 2, 2); sym_eq(algebra::det(a), det2(a), "2x2"); mat<real, 2, 2> f; f = a; sym_eq(algebra::det(f), det2(a), "fixed");
	M b = min_<M>("b", 1, 1); sym_eq(algebra::det(b), b(0, 0), "1x1");
}
HARNESS(det_3, "t=120", "determinant 3x3, every matrix") { M a = min_<M>("a", 3, 3); sym_eq(algebra::det(a), det3(a), "3x3"); }
HARNESS(det_4, "t=120", "determinant 4x4 of permuted triangular matrices, sign included") {
	int p = (int) sym_choose("p", 0, 23); int q[4] = {0, 1, 2, 3}, s = 1; for (int i = 0; i < 4; ++i) { int f = 4 - i, k = i + p % f; p /= f; if (k != i) { int t = q[i]; q[i] = q[k]; q[k] = t; s = -s; } }
	M a(4, 4); real d = 1; for (int i = 0; i < 4; ++i) for (int j = i; j < 4; ++j) { real v = i == j ? (i == 0 ? sym_real("d") : i + 1) : ent("a", i, j); a(q[i], j) = v; if (i == j) d *= v; }
	sym_assume(big(a(q[0], 0), 1e-9)); sym_eq(algebra::det(a), s * d, "4x4");
}
// eigenvalues
template<typename F> static void dense2(F f) { // eigenvector (3, 4) with eigenvalue l, anything else free
	real l = sym_real_in("l", 0.25, 8) * (sym_choose("sign", 0, 1) ? 1 : -1), a = sym_real_in("a", -8, 8), d = sym_real_in("d", -8, 8);
	M A(2, 2); A(0, 0) = a; A(0, 1) = 0.75 * (l - a); A(1, 0) = 4 * (l - d) / 3; A(1, 1) = d; V x(2); x[0] = 3; x[1] = 4; f(A, x, l);
}
HARNESS(power_exact, "t=60", "power method from an eigenvector gives its eigenvalue, unit eigenvector, every 2x2 matrix with that eigenvector") {
	dense2([](const M& A, const V& x, real l) { errno = 0; real e = algebra::eigenvalue_power(A, x); sym_near(e, l, 1e-6, "eigenvalue"); V v(2); real p = algebra::eigenpair_power(A, x, v); sym_near(p, l, 1e-6, "eigenpair"); sym_near(v[0] * v[0] + v[1] * v[1], 1, 1e-9, "unit"); sym_near(v[0] * x[1], v[1] * x[0], 1e-6, "eigenvector"); sym_check(errno == 0, "no error"); });
}
template<typename F> static void triangular2(F f) { // upper with eigenvector e1, lower with eigenvector e2
	int s = (int) sym_choose("s", 0, 1); real l = sym_real_in("l", 0.25, 8) * (sym_choose("sign", 0, 1) ? 1 : -1), d = sym_real_in("d", 0.25, 8), o = sym_real_in("o", -8, 8);
	M A(2, 2); A(s, s) = l; A(1 - s, 1 - s) = d; A(s, 1 - s) = o; A(1 - s, s) = 0; V x(2); x[s] = 1; x[1 - s] = 0; f(A, x, l, s);
}
HARNESS(inverse_exact, "t=60", "inverse power method from an eigenvector gives its eigenvalue and unit eigenvector, every regular triangular 2x2 matrix") {
	triangular2([](const M& A, const V& x, real l, int s) { errno = 0; real e = algebra::eigenvalue_inverse(A, x); sym_near(e, l, 1e-6, "eigenvalue"); V v(2); real p = algebra::eigenpair_inverse(A, x, v); sym_near(p, l, 1e-6, "eigenpair"); sym_near(v[s] * v[s], 1, 1e-6, "unit"); sym_near(v[1 - s], 0, 1e-6, "eigenvector"); sym_check(errno == 0, "no error"); });
}
HARNESS(eigenvector_exact, "t=60", "inverse power method with a shift gives the unit eigenvector, every triangular 2x2 matrix") {
	triangular2([](const M& A, const V& x, real l, int s) { real d = sym_real_in("delta", 0.125, 0.2) ; errno = 0; V v = algebra::eigenvector_inverse(A, l + d, x); sym_assume(big(A(1 - s, 1 - s) - l - d, 1e-9)); sym_near(v[s] * v[s], 1, 1e-6, "unit"); sym_near(v[1 - s], 0, 1e-6, "eigenvector"); sym_check(errno == 0, "no error"); });
}
HARNESS(rayleigh_quotient, "t=60", "Rayleigh quotient x A x / x x, every matrix and vector, 1..3; null vector reported") {
	int n = (int) sym_choose("n", 1, 3); M A = min_<M>("a", n, n); V x = vin<V>("x", n); real p = 0, q = 0; for (int i = 0; i < n; ++i) { q += x[i] * x[i]; for (int j = 0; j < n; ++j) p += x[i] * A(i, j) * x[j]; }
	errno = 0; real r = algebra::rayleigh_quotient(A, x); if (q >= MACH_EPSILON) { sym_eq(r * q, p, "quotient"); sym_check(errno == 0, "no error"); } else sym_check(errno == ERANGE && sym_isnan(r), "null vector");
}
HARNESS(power_step, "t=60", "one iteration of the power method: the value is the Rayleigh quotient at the iterate, and it is returned only under the tolerance") {
	M A(2, 2); A(0, 0) = sym_real_in("a", 1, 2); A(1, 1) = 0; A(0, 1) = 0; A(1, 0) = 0; V x(2); x[0] = sym_real_in("x", 1, 2); x[1] = 0; real a = A(0, 0);
	errno = 0; real e = algebra::eigenvalue_power(A, x, 10.0, 1); sym_check(errno == 0, "no error"); sym_near(e, a, 1e-9, "quotient");
	errno = 0; e = algebra::eigenvalue_power(A, x, -1.0, 2); sym_check(errno == ERANGE && sym_isnan(e), "no convergence is reported");
	V v(2); errno = 0; e = algebra::eigenpair_power(A, x, v, -1.0, 2); sym_check(errno == ERANGE && sym_isnan(e), "no convergence is reported by the pair");
	errno = 0; e = algebra::eigenvalue_inverse(A, x, -1.0, 2); sym_check(errno != 0 && sym_isnan(e), "singular matrix");
}
HARNESS(rayleigh_step, "t=60", "Rayleigh iteration on diagonal 2x2 matrices: the value is the Rayleigh quotient at the returned unit vector; no convergence reported") {
	M A(2, 2); A(0, 0) = sym_real_in("a", 1, 2); A(1, 1) = sym_real_in("b", 3, 4); V x(2); x[0] = sym_real_in("x", 1, 2); x[1] = sym_real_in("y", 1, 2);
	errno = 0; V v(2); real l = algebra::eigenpair_rayleigh(A, 0.0, x, v, -1.0, 0); sym_check(errno == ERANGE && sym_isnan(l), "no convergence"); errno = 0; l = algebra::eigenvalue_rayleigh(A, 0.0, x, -1.0, 0); sym_check(errno == ERANGE && sym_isnan(l), "no convergence");
	x[1] = 0; errno = 0; l = algebra::eigenpair_rayleigh(A, 0.5, x, v, 10.0, 1); sym_check(errno == 0 || errno == ERANGE, "exact start");
}
HARNESS(eigen_shapes, "t=60", "non-square matrices and vectors of the wrong size give NaN and EINVAL in every eigensolver") {
	int r = (int) sym_choose("r", 1, 3), c = (int) sym_choose("c", 1, 3), n = (int) sym_choose("n", 1, 3); if (r == c && n == r) return;
	M A(r, c); algebra::make_identity(A); V x(n, 1.0), v(n);
	errno = 0; sym_check(sym_isnan(algebra::eigenvalue_power(A, x)) && errno == EINVAL, "power"); errno = 0; sym_check(sym_isnan(algebra::eigenpair_power(A, x, v)) && errno == EINVAL, "pair power"); errno = 0; sym_check(sym_isnan(algebra::eigenvalue_inverse(A, x)) && errno == EINVAL, "inverse"); errno = 0; sym_check(sym_isnan(algebra::eigenpair_inverse(A, x, v)) && errno == EINVAL, "pair inverse");
	errno = 0; V e = algebra::eigenvector_inverse(A, 0.5, x); sym_check(allnan(e) && errno == EINVAL, "vector"); errno = 0; sym_check(sym_isnan(algebra::eigenvalue_rayleigh(A, 0.5, x)) && errno == EINVAL, "rayleigh"); errno = 0; sym_check(sym_isnan(algebra::eigenpair_rayleigh(A, 0.5, x, v)) && errno == EINVAL, "pair rayleigh");
}
// larger systems: diagonally dominant with fixed elements, symbolic right hand sides (and one symbolic off-diagonal element)
static M dominant(int n, bool symm, bool free) {
	M a(n, n);
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { int p = i, q = j; if (symm && q > p) { p = j; q = i; } a(i, j) = i == j ? 3 * n + i : ((p * 7 + q * 3) % 5) - 2; }
	if (free) { a(n - 1, 0) = sym_real_in("e", -1, 1); if (symm) a(0, n - 1) = a(n - 1, 0); }
	return a;
}
static const int BIG[] = {4, 5, 6, 8};
HARNESS(large_lu, "t=120", "LU factors, systems in all forms, 4x4 to 8x8: fixed dominant matrices with one symbolic element, symbolic right hand side") {
	int n = BIG[sym_choose("n", 0, 3)]; M a = dominant(n, false, n <= 6), L, U, P = a; V b = vin<V>("b", n); errno = 0;
	algebra::decompose_lu(a, L, U); algebra::decompose_lu_inplace(P);
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { real s = 0; for (int k = 0; k < n; ++k) s += L(i, k) * U(k, j); sym_eq(s, a(i, j), "L U = A"); if (j > i) sym_eq(L(i, j), 0, "L lower"); if (j < i) sym_eq(U(i, j), 0, "U upper"); sym_eq(P(i, j), j < i ? L(i, j) : U(i, j), "in place"); }
	solves(a, algebra::solve(a, b), b, "solve"); solves(a, algebra::solve_lu(L, U, b), b, "solve_lu"); V y = b; algebra::solve_lu_inplace(P, y); solves(a, y, b, "solve_lu_inplace"); solves(L, algebra::solve_triangular_lower(L, b), b, "lower"); solves(U, algebra::solve_triangular_upper(U, b), b, "upper"); solves(U, algebra::solve_triangular(U, b), b, "triangular"); solves(L, algebra::solve_triangular(L, b), b, "triangular"); sym_check(errno == 0, "no error");
	real d = 1; for (int i = 0; i < n; ++i) d *= U(i, i); sym_eq(algebra::det(a), d, "determinant");
}
HARNESS(large_permuted, "t=120", "systems, inverse and determinant of row-permuted dominant matrices 4x4 to 8x8 (pivoting required), symbolic right hand side; fixed size 5x5") {
	int n = BIG[sym_choose("n", 0, 3)], s = (int) sym_choose("shift", 0, 3), sg = 1; M a = dominant(n, false, false), p(n, n), v(n, n); V b = vin<V>("b", n);
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) p((i + s) % n, j) = (i + s) % n == j && s ? 0 : a(i, j);
	if (s * (n - s) % 2) sg = -1; errno = 0; V x = algebra::solve(p, b); solves(p, x, b, "solve"); v = algebra::inverse(p); M w = p; algebra::invert(w); algebra::inverse(v, p); sym_check(errno == 0, "no error");
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { real q = 0, r = 0; for (int k = 0; k < n; ++k) { q += p(i, k) * v(k, j); r += w(i, k) * p(k, j); } sym_near(q, i == j ? 1 : 0, 1e-9, "A A^-1 = 1"); sym_near(r, i == j ? 1 : 0, 1e-9, "A^-1 A = 1"); }
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) p(i, j) = a((i + n - s) % n, j); M L, U; algebra::decompose_lu(a, L, U); real d = sg; for (int i = 0; i < n; ++i) d *= U(i, i); sym_near(algebra::det(p) / d, 1, 1e-9, "determinant of a permuted matrix");
	if (n == 5) { mat<real, 5, 5> f; f = p; vec<real, 5> c = vin<vec<real, 5>>("b", 5); solves(f, algebra::solve(f, c), c, "fixed"); sym_near(algebra::det(f) / d, 1, 1e-9, "fixed determinant"); mat<real, 5, 5> g = algebra::inverse(f); for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) { real q = 0; for (int k = 0; k < 5; ++k) q += f(i, k) * g(k, j); sym_near(q, i == j ? 1 : 0, 1e-9, "fixed inverse"); } }
}
HARNESS(large_cholesky, "t=120", "Cholesky factor and solution, 4x4 to 8x8 fixed positive definite matrices, symbolic right hand side; indefinite ones rejected") {
	int n = BIG[sym_choose("n", 0, 3)]; M a = dominant(n, true, false); V b = vin<V>("b", n); errno = 0; M L = algebra::decompose_cholesky(a), P = a; algebra::decompose_cholesky_inplace(P); sym_check(errno == 0, "no error");
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { real s = 0; for (int k = 0; k < n; ++k) s += L(i, k) * L(j, k); sym_near(s, a(i, j), 1e-9, "L L^T = A"); sym_near(P(i, j), L(i, j), 1e-9, "in place"); if (j > i) sym_eq(L(i, j), 0, "lower"); if (i == j) sym_check(L(i, i) > 0, "positive diagonal"); }
	b[0] = 1; for (int i = 1; i < n; ++i) b[i] = sym_real_in(nm("c", i), -8, 8); V x = algebra::solve_cholesky(L, b); for (int i = 0; i < n; ++i) { real s = 0; for (int j = 0; j < n; ++j) s += a(i, j) * x[j]; sym_near(s, b[i], 1e-9, "solution"); }
	a(n - 1, n - 1) = -1; errno = 0; L = algebra::decompose_cholesky(a); sym_check(errno == EINVAL && iserr(L), "indefinite"); a = dominant(n, true, false); a(n - 1, n - 2) = a(n - 1, n - 2) + 1; errno = 0; L = algebra::decompose_cholesky(a); sym_check(errno == EINVAL && iserr(L), "not symmetric");
}
HARNESS(large_singular, "t=60", "singular matrices 4x4 to 6x6 (a repeated row): null determinant, inverse and system reported") {
	int n = BIG[sym_choose("n", 0, 2)], p = (int) sym_choose("p", 0, 1) ? n - 1 : 1, q = (int) sym_choose("q", 0, 1) ? 0 : n - 2; if (p == q) return;
	M a = dominant(n, false, false); for (int j = 0; j < n; ++j) a(p, j) = a(q, j); V b = vin<V>("b", n);
	sym_near(algebra::det(a), 0, 1e-6, "determinant"); errno = 0; M v = algebra::inverse(a); sym_check(errno != 0 && iserr(v), "inverse"); errno = 0; V x = algebra::solve(a, b); sym_check(errno != 0 && allnan(x), "solve");
}
HARNESS(null_pivots, "t=60", "LU decompositions report a null pivot above other rows, solvers with factors a null diagonal element, the Cholesky decompositions (both) a matrix which is not positive definite; 2x2 and 3x3, any other elements") {
	int n = (int) sym_choose("n", 2, 3), z = (int) sym_choose("z", 0, 2); if (z >= n) return; V b = vin<V>("b", n), x;
	M P(n, n), L(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { P(i, j) = i == j ? (i == z ? 0.0 : 2.0 + i) : sym_real(nm("p", 3 * i + j)); L(i, j) = j < i ? P(i, j) : i == j ? P(i, i) : 0.0; }
	errno = 0; x = b; algebra::solve_lu_inplace(P, x); sym_check(errno == ERANGE && allnan(x), "in place"); errno = 0; x = algebra::solve_cholesky(L, b); sym_check(errno == ERANGE && allnan(x), "Cholesky");
	if (z < n - 1) { M a(n, n), l, u; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a(i, j) = sym_real(nm("a", 3 * i + j)); if (z == 0) a(0, 0) = 0; else { a(0, 0) = 2; a(1, 1) = a(0, 1) * a(1, 0) / 2; } M q = a; errno = 0; algebra::decompose_lu(a, l, u); sym_check(errno == ERANGE && iserr(l) && iserr(u), "LU"); errno = 0; algebra::decompose_lu_inplace(q); sym_check(errno == ERANGE && iserr(q), "LU in place"); }
	M c(n, n); algebra::make_identity(c); c(z, z) = sym_real("d"); sym_assume(c(z, z) <= 0); M d = c; errno = 0; M e = algebra::decompose_cholesky(c); sym_check(errno == EINVAL && iserr(e), "not positive definite"); errno = 0; algebra::decompose_cholesky_inplace(d); sym_check(errno == EINVAL && iserr(d), "not positive definite, in place");
}
HARNESS(small_pivots, "mode=fp t=60", "inverse, solution and determinant of well-conditioned 2x2 and 3x3 matrices whose leading elements are 1e-5 to 1e-30, dynamic and fixed") {
	static const real E[] = {1e-5, 1e-10, 1e-16, 1e-20, 1e-30}; real e = E[sym_choose("e", 0, 4)]; if (sym_choose("g", 0, 1)) e = -e; int n = (int) sym_choose("n", 2, 3); M a(n, n); static const real K[] = {0, 1, 2, 1, 1, -1, 2, 0.5, 1}; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a(i, j) = K[3 * i + j]; a(0, 0) = e; if (n == 3) { a(1, 1) = e; } V b(n); for (int i = 0; i < n; ++i) b[i] = 1 + i; errno = 0; M v = algebra::inverse(a); V x = algebra::solve(a, b); sym_check(errno == 0, "no error");
	for (int i = 0; i < n; ++i) { real t = 0; for (int j = 0; j < n; ++j) { real s = 0, r = 0; for (int k = 0; k < n; ++k) { s += a(i, k) * v(k, j); r += v(i, k) * a(k, j); } s -= i == j ? 1 : 0; r -= i == j ? 1 : 0; sym_check(s < 1e-9 && s > -1e-9 && r < 1e-9 && r > -1e-9, "inverse"); t += a(i, j) * x[j]; } t -= b[i]; sym_check(t < 1e-9 && t > -1e-9, "solution"); } real d = algebra::det(a) - (n == 2 ? a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0) : a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0)) + a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0))); sym_check(d < 1e-9 && d > -1e-9, "determinant");
	if (n == 2) { mat<real, 2, 2> f; f = a; mat<real, 2, 2> g = algebra::inverse(f); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { real s = g(i, j) - v(i, j); sym_check(s < 1e-9 && s > -1e-9, "fixed"); } }
}
HARNESS(small_definite, "mode=fp t=60", "Cholesky factors of small positive definite matrices (scale 1e-4 to 1e-14), both forms, and their solutions; systems of small matrices, triangular and general; quotients of small vectors") {
	static const real S[] = {1e-4, 1e-7, 1e-9, 1e-11, 1e-13}; real c = S[sym_choose("s", 0, 4)]; M a(3, 3); static const real K[] = {4, 2, -2, 2, 5, 1, -2, 1, 6}; for (int i = 0; i < 9; ++i) a(i / 3, i % 3) = c * K[i]; V b(3); for (int i = 0; i < 3; ++i) b[i] = c * (i + 1);
	errno = 0; M l = algebra::decompose_cholesky(a), m = a; algebra::decompose_cholesky_inplace(m); V x = algebra::solve_cholesky(l, b), y = algebra::solve(a, b), z = algebra::solve_triangular(l, b); sym_check(errno == 0, "no error");
	for (int i = 0; i < 3; ++i) { real t = 0, u = 0, w = 0; for (int j = 0; j < 3; ++j) { real s = 0, r = 0; for (int k = 0; k < 3; ++k) { s += l(i, k) * l(j, k); r += m(i, k) * m(j, k); } s = s / c - K[3 * i + j]; r = r / c - K[3 * i + j]; sym_check(s < 1e-8 && s > -1e-8, "factor"); sym_check(r < 1e-8 && r > -1e-8, "factor in place"); t += K[3 * i + j] * x[j]; u += K[3 * i + j] * y[j]; w += l(i, j) * z[j]; } t -= i + 1; u -= i + 1; w = w / c - (i + 1); sym_check(t < 1e-8 && t > -1e-8, "solve_cholesky"); sym_check(u < 1e-8 && u > -1e-8, "solve"); sym_check(w < 1e-8 && w > -1e-8, "solve_triangular"); }
	V v(2); v[0] = th::sqrt(c); v[1] = 2 * v[0]; M d(2, 2); d(0, 0) = 2; d(1, 1) = 3; d(0, 1) = d(1, 0) = 1; real q = algebra::rayleigh_quotient(d, v) - 18.0 / 5; sym_check(q < 1e-8 && q > -1e-8, "quotient");
}
HARNESS(nearly_diagonal, "t=60", "triangular systems whose element off the diagonal is small (1e-6 to 1e-3) are solved with it, upper and lower, dynamic and fixed") {
	real e = sym_real_in("e", 0.000001, 0.001), b0 = sym_real("b0"), b1 = sym_real("b1"); int up = (int) sym_choose("up", 0, 1), n = (int) sym_choose("n", 2, 3); if (sym_choose("g", 0, 1)) e = -e; M t(n, n); for (int i = 0; i < n; ++i) t(i, i) = 1 + i; if (up) t(0, n - 1) = e; else t(n - 1, 0) = e; V b(n); b[0] = b0; b[n - 1] = b1; if (n == 3) b[1] = 2; errno = 0; V x = algebra::solve_triangular(t, b); sym_check(errno == 0, "no error"); for (int i = 0; i < n; ++i) { real s = 0; for (int j = 0; j < n; ++j) s += t(i, j) * x[j]; sym_eq(s, b[i], "solution"); }
	if (n == 2) { mat<real, 2, 2> f; f = t; vec<real, 2> c; c[0] = b0; c[1] = b1; vec<real, 2> y = algebra::solve_triangular(f, c); sym_eq(y[0], x[0], "fixed"); sym_eq(y[1], x[1], "fixed"); }
}
HARNESS(not_triangular, "t=60", "a matrix with non-null elements on both sides of the diagonal is not a triangular system: NaN in every component, EINVAL, sizes 2..4, dynamic and fixed") {
	int n = (int) sym_choose("n", 2, 4); M t(n, n); for (int i = 0; i < n; ++i) t(i, i) = 1; real e = sym_real("e"), f = sym_real("f"); sym_assume(e > 0.001 && f < -0.001); t(0, n - 1) = e; t(n - 1, 0) = f; V b(n, 1.0); errno = 0; V x = algebra::solve_triangular(t, b); sym_check(errno == EINVAL, "errno"); sym_check((int) x.size() == n, "size"); for (unsigned i = 0; i < x.size(); ++i) sym_check(sym_isnan(x[i]), "NaN");
	if (n == 2) { mat<real, 2, 2> g; g = t; vec<real, 2> c(1.0); errno = 0; vec<real, 2> y = algebra::solve_triangular(g, c); sym_check(errno == EINVAL && sym_isnan(y[0]) && sym_isnan(y[1]), "fixed"); }
}
static real ab_(real x) { return x < 0 ? -x : x; }
static M sym_fixed(int k, int n) { M a(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a(i, j) = i == j ? 2 + 2 * i + k : (i + j + k) % 3 * 0.5 - 0.5 * (k == 2); return a; }
static real resid(const M& a, const V& v, real l) { real q = 0; for (unsigned i = 0; i < a.rows(); ++i) { real s = -l * v[i]; for (unsigned j = 0; j < a.cols(); ++j) s += a(i, j) * v[j]; q += s * s; } return q; }
HARNESS(rayleigh_converges, "mode=fp libm t=60 max_instr=100000000", "Rayleigh iteration of symmetric 2x2, 3x3 and 4x4 matrices from shifts below, between and above the eigenvalues ends in an eigenpair, value and pair agree") {
	static const real L[] = {-3, 0, 1.75, 2.875, 5.25, 7, 11}; int n = (int) sym_choose("n", 2, 4), k = (int) sym_choose("k", 0, 2); real l = L[sym_choose("l", 0, 6)]; M a = sym_fixed(k, n); V x(n), v(n); for (int i = 0; i < n; ++i) x[i] = i == 1 ? 0.5 : 1.0 - 0.375 * i; errno = 0; real e = algebra::eigenpair_rayleigh(a, l, x, v), f = algebra::eigenvalue_rayleigh(a, l, x);
	sym_check(errno == 0, "no error"); sym_check(resid(a, v, e) < 1e-12, "eigenpair"); real q = 0; for (int i = 0; i < n; ++i) q += v[i] * v[i]; sym_check(ab_(q - 1) < 1e-9, "unit"); sym_check(ab_(e - f) < 1e-9, "eigenvalue");
}
HARNESS(inverse_converges, "mode=fp libm t=60 max_instr=100000000", "inverse iteration of symmetric 2x2, 3x3 and 4x4 matrices, with positive and negative shifts and without, ends in the eigenpair of the eigenvalue nearest to the shift; the power method in that of the biggest") {
	static const real L[] = {-5.375, -1.125, 0.25, 4.3125, 12}; int n = (int) sym_choose("n", 2, 4), k = (int) sym_choose("k", 0, 2), c = (int) sym_choose("l", 0, 4); real l = L[c]; M a = sym_fixed(k, n); if (sym_choose("g", 0, 1)) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a(i, j) = -a(i, j); } V x(n), v(n), w(n); for (int i = 0; i < n; ++i) x[i] = 1.0 + 0.375 * i; errno = 0; V u = algebra::eigenvector_inverse(a, l, x, 1e-8, 2000); sym_check(errno == 0, "no error"); real q = 0, s = 0; for (int i = 0; i < n; ++i) { real r = 0; for (int j = 0; j < n; ++j) r += a(i, j) * u[j]; q += u[i] * u[i]; s += u[i] * r; } sym_check(ab_(q - 1) < 1e-9, "unit"); sym_check(resid(a, u, s) < 1e-8, "eigenvector");
	if (c == 0) { real p = algebra::eigenpair_power(a, x, v, 1e-8, 2000), t = algebra::eigenvalue_power(a, x, 1e-8, 2000), m = algebra::eigenpair_inverse(a, x, w, 1e-8, 2000), o = algebra::eigenvalue_inverse(a, x, 1e-8, 2000); sym_check(errno == 0, "no error"); sym_check(resid(a, v, p) < 1e-8 && ab_(p - t) < 1e-6, "power"); sym_check(resid(a, w, m) < 1e-8 && ab_(m - o) < 1e-6, "inverse"); sym_check(ab_(m) < ab_(p), "smallest and biggest"); sym_check((p < 0) == (a(n - 1, n - 1) < 0), "sign"); }
}
HARNESS(not_convergent, "mode=fp libm t=60", "every eigen-solver reports an unattainable tolerance as ERANGE with NaN, after 1, 2 and 5 iterations, and does not with an attainable one; the number of iterations allowed suffices exactly when the tolerance is reached in them") {
	static const int I[] = {1, 2, 5}; int it = I[sym_choose("it", 0, 2)], k = (int) sym_choose("solver", 0, 6); M a = sym_fixed(0, 3); V x(3), v(3); x[0] = 1; x[1] = 0.5; x[2] = -0.25; for (int good = 0; good < 2; ++good) { real tol = good ? 10.0 : -1.0; errno = 0; real e = k == 0 ? algebra::eigenvalue_power(a, x, tol, it) : k == 1 ? algebra::eigenpair_power(a, x, v, tol, it) : k == 2 ? algebra::eigenvalue_inverse(a, x, tol, it) : k == 3 ? algebra::eigenpair_inverse(a, x, v, tol, it) : k == 4 ? algebra::eigenvector_inverse(a, 0.25, x, tol, it)[0] : k == 5 ? algebra::eigenvalue_rayleigh(a, 0.25, x, tol, it) : algebra::eigenpair_rayleigh(a, 0.25, x, v, tol, it); if (good) sym_check(errno == 0 && !sym_isnan(e), "converged"); else sym_check(errno == ERANGE && sym_isnan(e), "not converged"); }
}

template<typename A> static cx cdet(const A& a, int n) { // cofactors along the first row
	if (n == 1) return a(0, 0);
	cx s(0, 0);
	for (int k = 0; k < n; ++k) { mat<cx> m; m.resize(n - 1, n - 1); for (int i = 1; i < n; ++i) for (int j = 0; j < n; ++j) if (j != k) m(i - 1, j < k ? j : j - 1) = a(i, j); cx t = a(0, k) * cdet(m, n - 1); s = k % 2 ? s - t : s + t; }
	return s;
}
static bool cnear(const cx& x, const cx& y, real t) { real d = x.a - y.a, e = x.b - y.b; return d <= t && d >= -t && e <= t && e >= -t; }
template<typename A, typename W> static void complex_systems(int n) {
	int p = (int) sym_choose("p", 0, n - 1), w = (int) sym_choose("w", 0, 2); A a; W b; a.resize(n, n); b.resize(n);
	for (int i = 0; i < n; ++i) { b[i] = cx(i + 1.5, 2.0 - i * i); for (int j = 0; j < n; ++j) a((i + p) % n, j) = i == j ? (w == 0 ? cx(0, 9) : w == 1 ? cx(-8, 1) : cx(6, -7)) : cx((3 * i + 5 * j) % 4 - 1.5, (2 * i + j) % 3 - 1.0); } // dominant, rows rotated by p
	const A a0 = a; const W b0 = b; auto sol = [&](const A& m, const W& x, const W& r, const char* id) { sym_check((int) x.size() == n, id); if ((int) x.size() != n) return; for (int i = 0; i < n; ++i) { cx s(0, 0); for (int j = 0; j < n; ++j) s = s + m(i, j) * x[j]; sym_check(cnear(s, r[i], 1e-9), id); } };
	errno = 0; sol(a0, algebra::solve(a, b), b0, "solve"); sol(a0, algebra::solve_lu(a, b), b0, "solve_lu");
	A v = algebra::inverse(a), u = a, z; algebra::invert(u); z.resize(n, n); algebra::inverse(z, a);
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { cx s(0, 0); for (int k = 0; k < n; ++k) s = s + a0(i, k) * v(k, j); sym_check(cnear(s, cx(i == j ? 1 : 0, 0), 1e-9), "inverse"); sym_check(cnear(u(i, j), v(i, j), 1e-12) && cnear(z(i, j), v(i, j), 1e-12), "invert"); sym_check(cnear(a(i, j), a0(i, j), 0), "operand"); }
	cx d = algebra::det(a), e = cdet(a0, n); sym_check(cnear(d, e, 1e-10 * (1 + e.norm())), "determinant");
	A t = a0, l = a0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { if (i == j) t(i, j) = l(i, j) = cx(2 + i, 1 - j); else (j < i ? t : l)(i, j) = cx(0, 0); }
	sol(t, algebra::solve_triangular_upper(t, b), b0, "upper"); sol(l, algebra::solve_triangular_lower(l, b), b0, "lower"); sol(t, algebra::solve_triangular(t, b), b0, "dispatched upper"); sol(l, algebra::solve_triangular(l, b), b0, "dispatched lower");
	if (p == 0) { A L, U, P = a; L.resize(n, n); U.resize(n, n); algebra::decompose_lu(a, L, U); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { cx s(0, 0); for (int k = 0; k < n; ++k) s = s + L(i, k) * U(k, j); sym_check(cnear(s, a0(i, j), 1e-9), "factors"); sym_check(j > i ? cnear(L(i, j), cx(0, 0), 0) : i > j ? cnear(U(i, j), cx(0, 0), 1e-9) : cnear(L(i, j), cx(1, 0), 0), "shapes"); } sol(a0, algebra::solve_lu(L, U, b), b0, "factors"); algebra::decompose_lu_inplace(P); W y = b; algebra::solve_lu_inplace(P, y); sol(a0, y, b0, "in place"); }
	sym_check(errno == 0, "no error");
	A h = a0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) h(i, j) = i == 0 ? a0(n - 1, j) : a0(i, j); if (n > 1) { sym_check(cnear(algebra::det(h), cx(0, 0), 1e-10), "singular determinant"); }
}
HARNESS(complex_dynamic, "mode=fp libm t=60", "complex systems with dominant elements on rotated rows (pivoting needed), 1x1 to 4x4: solutions, inverses, determinants, factors, triangular systems in all forms; null determinant of repeated rows") { complex_systems<mat<cx>, vec<cx>>((int) sym_choose("n", 1, 4)); }
HARNESS(complex_fixed, "mode=fp libm t=60", "the same for fixed 3x3 matrices") { complex_systems<mat<cx, 3, 3>, vec<cx, 3>>(3); }
HARNESS(complex_pivot, "t=60", "complex 2x2 systems whose first element is null: every other element and right hand side") {
	mat<cx> a; a.resize(2, 2); a(0, 1) = cx(ent("a", 0, 1), ent("b", 0, 1)); a(1, 0) = cx(ent("a", 1, 0), ent("b", 1, 0)); a(1, 1) = cx(ent("a", 1, 1), ent("b", 1, 1)); vec<cx> b; b.resize(2); for (int i = 0; i < 2; ++i) b[i] = cx(sym_real(nm("c", i)), sym_real(nm("d", i)));
	sym_assume(a(0, 1).sqr_norm() >= 1 && a(1, 0).sqr_norm() >= 1);
	errno = 0; vec<cx> x = algebra::solve(a, b); sym_check(errno == 0, "no error");
	for (int i = 0; i < 2; ++i) { cx s = a(i, 0) * x[0] + a(i, 1) * x[1]; sym_eq(s.a, b[i].a, "Re"); sym_eq(s.b, b[i].b, "Im"); }
}
HARNESS(factor_scales, "mode=fp t=60", "systems with given Cholesky and packed LU factors whose pivots are 1e-3 to 1e-30: solved, not taken for null") {
	static const real S[] = {1e-3, 1e-9, 1e-15, 1e-20, 1e-30}; real c = S[sym_choose("s", 0, 4)]; int n = (int) sym_choose("n", 1, 3); if (sym_choose("g", 0, 1)) c = -c;
	M L(n, n), P(n, n); V b(n); for (int i = 0; i < n; ++i) { b[i] = c * (i + 1); for (int j = 0; j <= i; ++j) L(i, j) = c * (i == j ? 2 + i : 1 - j); for (int j = 0; j < n; ++j) P(i, j) = j < i ? 0.5 : c * (i == j ? 3 - i : 1); }
	errno = 0; V x = algebra::solve_cholesky(L, b), y = b; algebra::solve_lu_inplace(P, y); sym_check(errno == 0, "no error");
	for (int i = 0; i < n; ++i) {
		real s = 0, t = 0; for (int j = 0; j < n; ++j) { real q = 0, r = 0; for (int k = 0; k < n; ++k) { q += (L(i, k) / c) * (L(j, k) / c); r += (k < i ? P(i, k) : k == i ? 1 : 0) * (k <= j ? P(k, j) / c : 0); } s += q * (x[j] * c); t += r * y[j]; }
		s -= i + 1; t -= i + 1; sym_check(s < 1e-9 && s > -1e-9, "solve_cholesky"); sym_check(t < 1e-9 && t > -1e-9, "solve_lu_inplace");
	}
}
