// C25 root finding
#include "sym.h"
#include <vector>
#include "theoretica.h"
using namespace theoretica;
namespace th = theoretica;
static real F(real x) { return sym_uf1("f", x); }
static real DF(real x) { return sym_uf1("df", x); }
static real D2F(real x) { return sym_uf1("d2f", x); }
static real ab(real x) { return x < 0 ? -x : x; }
HARNESS(intervals, "t=60", "find_root_intervals returns exactly the sub-intervals of an arbitrary function with a sign change or a null end, in order, every interval") {
	unsigned n = (unsigned) sym_choose("n", 1, 4); real a = sym_real("a"), b = sym_real("b"); auto v = find_root_intervals(F, a, b, n); unsigned k = 0;
	for (unsigned i = 0; i < n; ++i) { real x = a + (b - a) * i / n, y = a + (b - a) * (i + 1) / n; if (F(x) * F(y) <= 0) { sym_check(k < v.size(), "missed"); if (k < v.size()) { sym_eq(v[k][0], x, "lower end"); sym_eq(v[k][1], y, "upper end"); } ++k; } } sym_check(v.size() == k, "count");
}
HARNESS(bisect_any, "t=60", "bisection of an arbitrary function with a sign change, on any interval of eight tolerances, stops at a root or at a point with a sign change within the tolerance on both sides") {
	real a = sym_real_in("a", -16, 16), tol = 0.125; int k = (int) sym_choose("k", 0, 3); real b = a + 2 * tol * (1 << k); sym_assume(F(a) * F(b) < 0); errno = 0; real x = root_bisect(F, a, b, tol); sym_check(errno == 0, "no error"); sym_check(F(x) == 0 || F(x - tol) * F(x + tol) <= 0, "sign change"); sym_check(a <= x && x <= b, "inside");
}
HARNESS(bisect_root, "t=60", "bisection is within the tolerance of the only root, every root, slope and interval within sixteen tolerances") {
	real a = sym_real_in("a", -4, 4), w = sym_real_in("w", 0.03125, 1), r = sym_real("r"), c = sym_choose("s", 0, 1) ? 3 : -0.5, tol = 0.0625; real b = a + w; sym_assume(r > a && r < b); auto f = [c, r](real x) { return c * (x - r); }; errno = 0; real x = root_bisect(f, a, b, tol); sym_check(errno == 0, "no error"); sym_check(ab(x - r) <= tol, "tolerance"); sym_check(a <= x && x <= b, "inside");
}
HARNESS(bisect_errors, "t=60", "bisection of an arbitrary function without a sign change, of a reversed interval, or with too few iterations is an error with NaN result") {
	real a = sym_real_in("a", -4, 4), b = sym_real_in("b", -4, 4); sym_assume(F(a) * F(b) >= 0 || a > b); errno = 0; real x = root_bisect(F, a, b, 0.125); sym_check(errno == EINVAL && sym_isnan(x), "argument"); real c = a + 1; sym_assume(F(a) * F(c) < 0); unsigned m = (unsigned) sym_choose("m", 0, 4); errno = 0; x = root_bisect(F, a, c, 0.0625, m); if (m >= 3) { sym_check(errno == 0 && !sym_isnan(x), "enough"); } else { sym_check(errno == ERANGE && sym_isnan(x), "iterations"); }
}
HARNESS(itp, "t=100", "ITP is within the tolerance of the only root of linear and discontinuous functions, every root, four widths, hyper-parameters 0, 1, 2") {
	real a = sym_real_in("a", -4, 4), r = sym_real("r"), tol = 0.125; int k = (int) sym_choose("k", 0, 2), s = (int) sym_choose("s", 0, 3); unsigned n0 = (unsigned) sym_choose("n0", 0, 2); real b = a + (k == 0 ? 0.25 : k == 1 ? 0.75 : 1); sym_assume(r > a && r < b); real c = s % 2 ? 3 : -0.5; auto f = [c, r, s](real x) -> real { if (s < 2) return c * (x - r); return x < r ? -c : 4 * c; }; errno = 0; real x = root_itp(f, a, b, tol, n0); sym_check(errno == 0, "no error"); sym_check(ab(x - r) <= tol, "tolerance"); sym_check(a <= x && x <= b, "inside");
}
HARNESS(itp_curved, "t=100 mode=fp libm", "ITP is within the tolerance of the root of a cubic, an exponential, a steep and a flat function, four intervals, hyper-parameters 0..2") {
	int k = (int) sym_choose("f", 0, 3), w = (int) sym_choose("interval", 0, 3), s = (int) sym_choose("sign", 0, 1); unsigned n0 = (unsigned) sym_choose("n0", 0, 2); static const real L[4] = {-2, 0.25, -40, 0.9}, U[4] = {3, 2, 1.5, 100}; real c = s ? 1 : -3, tol = 1e-7;
	auto f = [k, c](real x) -> real { switch (k) { case 0: return c * (x * x * x - 1); case 1: return c * (th::exp(x < 30 ? x : 30) - E); case 2: return c * (x - 1) * (1 + 1000 * (x - 1) * (x - 1)); default: { real y = x - 1; return c * y * y * y * y * y; } } };
	errno = 0; real x = root_itp(f, L[w], U[w], tol, n0); sym_check(errno == 0, "no error"); sym_near(x, 1, 2 * tol, "root");
	errno = 0; x = root_itp(f, U[w], L[w], tol, n0); sym_check(errno == EINVAL && sym_isnan(x), "reversed");
	errno = 0; x = root_itp(f, 1.5 + w, 2.75 + w, tol, n0); sym_check(errno == EINVAL && sym_isnan(x), "no sign change");
}
HARNESS(itp_errors, "t=60", "ITP of an arbitrary function without a sign change or of a reversed interval is an error with NaN result") {
	real a = sym_real_in("a", -4, 4), b = sym_real_in("b", -4, 4); sym_assume(a < b - 1e-9 || a > b + 1e-9); sym_assume(F(a) * F(b) >= 0 || a > b); errno = 0; real x = root_itp(F, a, b, 0.125); sym_check(errno == EINVAL && sym_isnan(x), "argument");
}
// textbook iterations
static real next(int m, real x, real f) {
	real d = m == 5 ? 0 : DF(x), e; if (m == 5) { real g = F(x + f) - f; sym_assume(g != 0); return x - f * f / g; }
	sym_assume(d != 0); real u = f / d;
	switch (m) { case 0: return x - u; case 1: e = 2 * d * d - f * D2F(x); sym_assume(e != 0); return x - 2 * f * d / e; case 2: return x - u - u * u * D2F(x) / (2 * d);
	case 3: { real g = F(x - u); sym_assume(f - 2 * g != 0); return x - u - g / d * f / (f - 2 * g); } default: { real g = DF(x - 2 * u / 3); sym_assume(d - 3 * g != 0); return x - u / 2 + f / (d - 3 * g); } }
}
typedef real (*fn)(real);
static real run(int m, real x, real tol, unsigned it) { switch (m) { case 0: return root_newton<fn>(F, DF, x, tol, it); case 1: return root_halley<fn>(F, DF, D2F, x, tol, it); case 2: return root_chebyshev<fn>(F, DF, D2F, x, tol, it); case 3: return root_ostrowski<fn>(F, DF, x, tol, it); case 4: return root_jarrat<fn>(F, DF, x, tol, it); default: return root_steffensen<fn>(F, x, tol, it); } }
HARNESS(iterations, "t=100 max_paths=2000", "Newton, Halley, Chebyshev, Ostrowski, Jarratt and Steffensen iterate their formula for an arbitrary function until |f| is within the tolerance, and are an error with NaN result otherwise") {
	int m = (int) sym_choose("m", 0, 5); unsigned it = (unsigned) sym_choose("it", 0, 1); real x0 = sym_real("x"), tol = 0.25, x = x0; bool ok = false; for (unsigned i = 0; i < it + 1 && !ok; ++i) { real f = F(x); if (f == 0) { ok = true; break; } x = next(m, x, f); if (ab(f) <= tol && i < it) ok = true; }
	errno = 0; real r = run(m, x0, tol, it); if (ok) { sym_check(errno == 0, "no error"); sym_eq(r, x, "iterate"); } else { sym_check(errno == ERANGE && sym_isnan(r), "no convergence"); }
}
static real P[4];
template<typename T> static T poly(T x) { return P[0] + x * (P[1] + x * (P[2] + x * P[3])); }
static real pd(real x) { return P[1] + 2 * x * P[2] + 3 * x * x * P[3]; }
static real pdd(real x) { return 2 * P[2] + 6 * x * P[3]; }
HARNESS(automatic, "t=100", "the automatic differentiation forms of Newton, Halley and Chebyshev equal the forms with given derivatives, every cubic, one iteration") {
	int m = (int) sym_choose("m", 0, 2); unsigned it = (unsigned) sym_choose("it", 0, 1); for (int i = 0; i < 4; ++i) P[i] = sym_real(nm("p", i)); real x0 = sym_real("x"), tol = 0.25; sym_assume(pd(x0) != 0); if (it == 1) sym_assume(ab(poly(x0)) <= tol); if (m == 1) sym_assume(2 * pd(x0) * pd(x0) - poly(x0) * pdd(x0) != 0); errno = 0; real a = m == 0 ? root_newton<fn>(poly<real>, pd, x0, tol, it) : m == 1 ? root_halley<fn>(poly<real>, pd, pdd, x0, tol, it) : root_chebyshev<fn>(poly<real>, pd, pdd, x0, tol, it); int ea = errno; errno = 0; real b = m == 0 ? root_newton(poly<dual>, x0, tol, it) : m == 1 ? root_halley(poly<dual2>, x0, tol, it) : root_chebyshev(poly<dual2>, x0, tol, it); sym_check(errno == ea, "same error"); if (sym_isnan(a)) { sym_check(sym_isnan(b), "no convergence"); } else { sym_eq(a, b, "same iterate"); }
}
HARNESS(linear, "t=60", "every method finds the root of a linear function, every slope and root, from every guess (guesses already at the root included)") {
	int m = (int) sym_choose("m", 0, 8); real c = sym_real("c"), r = sym_real("r"), x0 = sym_real("x"); sym_assume(c != 0); if (m == 5) sym_assume(c != -1); auto f = [c, r](real x) -> real { return c * (x - r); }; auto d = [c, r](real) -> real { return c; }; auto z = [c, r](real) -> real { return 0; }; typedef std::function<real(real)> G; G gf = f, gd = d, gz = z; P[0] = -c * r; P[1] = c; P[2] = P[3] = 0; errno = 0; real x; switch (m) { case 0: x = root_newton(gf, gd, x0); break; case 1: x = root_halley(gf, gd, gz, x0); break; case 2: x = root_chebyshev(gf, gd, gz, x0); break; case 3: x = root_ostrowski(gf, gd, x0); break; case 4: x = root_jarrat(gf, gd, x0); break; case 5: x = root_steffensen(gf, x0); break; case 6: x = root_newton(poly<dual>, x0); break; case 7: x = root_halley(poly<dual2>, x0); break; default: x = root_chebyshev(poly<dual2>, x0); } sym_check(errno == 0, "no error"); sym_eq(x, r, "root");
}
HARNESS(complex_newton, "t=60", "complex Newton finds the root of complex linear functions of five slopes, every root and guess, and iterates its formula on quadratics from six guesses, every constant") {
	static const real C[5][2] = {{1, 0}, {0, -2}, {-0.5, 0.25}, {3, 4}, {0.0078125, -1}}, Z[6][2] = {{1, 0}, {0, 1}, {-2, 0.5}, {0.125, -3}, {-1, -1}, {16, 8}}; int ck = (int) sym_choose("c", 0, 4); complex<real> c(C[ck][0], C[ck][1]), r(sym_real("rr"), sym_real("ri")), z(sym_real("zr"), sym_real("zi")); typedef std::function<complex<real>(complex<real>)> G; G f = [c, r](complex<real> x) { return c * (x - r); }, d = [c](complex<real>) { return c; }; errno = 0; complex<real> x = root_newton<real>(f, d, z, 0.25); sym_check(errno == 0, "no error"); sym_eq(x.Re(), r.Re(), "real"); sym_eq(x.Im(), r.Im(), "imaginary"); errno = 0; x = root_newton<real>(f, d, z, 0.25, 0); real dr = z.Re() - r.Re(), di = z.Im() - r.Im(); if (dr * dr + di * di > 1e-6) sym_check(errno == ERANGE && sym_isnan(x.Re()) && sym_isnan(x.Im()), "no convergence");
}
HARNESS(complex_step, "t=60", "complex Newton iterates its formula on quadratics from six guesses, every constant") {
	static const real Z[6][2] = {{1, 0}, {0, 1}, {-2, 0.5}, {0.125, -3}, {-1, -1}, {16, 8}}; int k = (int) sym_choose("z", 0, 5); real zr = Z[k][0], zi = Z[k][1], q = zr * zr + zi * zi; complex<real> r(sym_real("rr"), sym_real("ri")), z(zr, zi), x; typedef std::function<complex<real>(complex<real>)> G; G g = [r](complex<real> x) { return x * x - r; }, e = [](complex<real> x) { return x * complex<real>(2, 0); }; real fr = zr * zr - zi * zi - r.Re(), fi = 2 * zr * zi - r.Im(); errno = 0; x = root_newton<real>(g, e, z, 0.5, 1); if (fr * fr + fi * fi <= 0.25) { sym_check(errno == 0, "converged"); sym_eq(x.Re(), zr - (fr * zr + fi * zi) / (2 * q), "step"); sym_eq(x.Im(), zi - (fi * zr - fr * zi) / (2 * q), "step"); } else { real a = zr - (fr * zr + fi * zi) / (2 * q), b = zi - (fi * zr - fr * zi) / (2 * q); real gr = a * a - b * b - r.Re(), gi = 2 * a * b - r.Im(); if (gr * gr + gi * gi > 1e-6) sym_check(errno == ERANGE && sym_isnan(x.Re()), "not converged"); }
}
HARNESS(roots_function, "t=100", "roots returns, for every interval with a sign change, a root end or a point within the tolerance of the root, every root and slope") {
	real r = sym_real("r"), tol = 0.125, c = sym_choose("s", 0, 1) ? 2 : -3; int n = (int) sym_choose("n", 1, 3); sym_assume(r > -1.5 && r < 1.5); real dx = 3.0 / n; int nodes = 0; for (int i = 0; i <= n; ++i) { real u = c * (-1.5 + i * dx - r); sym_assume(ab(u) >= 1e-9 || u == 0); if (u == 0) nodes++; } auto f = [c, r](real x) { return c * (x - r); }; errno = 0; auto v = roots(f, -1.5, 1.5, tol, n); sym_check(errno == 0, "no error"); sym_check((int) v.size() == 1 + nodes, "count"); for (unsigned i = 0; i < v.size(); ++i) sym_check(ab(v[i] - r) <= tol, "tolerance");
}
HARNESS(roots_none, "t=60", "roots of a function without sign changes is empty, and zero steps are an error") {
	real c = sym_real("c"); sym_assume(c > 1e-9 || c < -1e-9); auto f = [c](real) { return c; }; errno = 0; auto v = roots(f, -1.0, 2.0, 0.125, 3); sym_check(errno == 0 && v.empty(), "none"); v = roots(f, -1.0, 2.0, 0.125, 0); sym_check(errno == ERANGE && v.size() == 1 && sym_isnan(v[0]), "steps");
}
HARNESS(roots_polynomial, "t=100", "the root of every linear polynomial is found within the tolerance (inside Lagrange's bound), the argument unchanged; constant and empty polynomials have none") {
	real a = sym_choose("a", 0, 1) ? 2 : -0.5, b = sym_real_in("b", -3, 3), r = -b / a, tol = 0.25; sym_assume(b == 0 || ab(b) >= 1e-9); sym_assume(ab(b + a) >= 1e-9 || b + a == 0); sym_assume(ab(b - a) >= 1e-9 || b - a == 0); polynomial<real> p({b, a}); errno = 0; auto v = roots(p, tol); sym_check(errno == 0, "no error"); sym_check(v.size() >= 1, "found"); for (unsigned i = 0; i < v.size(); ++i) sym_check(ab(v[i] - r) <= tol, "tolerance"); sym_eq(p[0], b, "argument"); sym_eq(p[1], a, "argument"); polynomial<real> e, k({b}); sym_check(roots(e).empty() && roots(k).empty(), "constant");
}
HARNESS(roots_quadratic, "t=100", "both roots of a quadratic with distinct simple roots are found within the tolerance, every leading coefficient sign") {
	real r = sym_real_in("r", -0.9, -0.1), s = sym_real_in("s", 0.1, 0.9), tol = 0.125, a = sym_choose("a", 0, 1) ? 1 : -2; polynomial<real> p({a * r * s, -a * (r + s), a}); auto v = roots(p, tol, 2u); sym_check(v.size() == 2, "count"); if (v.size() == 2) { sym_check(ab(v[0] - r) <= tol, "first"); sym_check(ab(v[1] - s) <= tol, "second"); }
}
template<unsigned N> static autodiff::dvec_t<N> lin(autodiff::dvec_t<N> x) { autodiff::dvec_t<N> y; y.resize(2); y[0] = P[0] * x[0] + P[1] * x[1] - 1.0; y[1] = P[2] * x[0] + P[3] * x[1] + 2.0; return y; }
template<unsigned N> static autodiff::dvec_t<N> quad(autodiff::dvec_t<N> x) { autodiff::dvec_t<N> y; y.resize(2); y[0] = x[0] * x[1] - 1.0; y[1] = square(x[0]) - 4.0 * x[1]; return y; }
static const real M[4][4] = {{2, -1, 1, 3}, {0, 2, -4, 1}, {1, 0, 5, -2}, {-3, 1, 0, 0.5}};
template<unsigned N> static void newton(real x, real y) {
	vec<real, N> g; g.resize(2); g[0] = x; g[1] = y; errno = 0; vec<real, N> r = multiroot_newton<N>(lin<N>, g, 0.25, 2); sym_check(errno == 0 && r.size() == 2, "no error"); if (r.size() != 2) return; real fx = P[0] * x + P[1] * y - 1, fy = P[2] * x + P[3] * y + 2; if (fx * fx + fy * fy > 0.0625) { sym_eq(P[0] * r[0] + P[1] * r[1], 1, "first"); sym_eq(P[2] * r[0] + P[3] * r[1], -2, "second"); } else { sym_eq(r[0], x, "guess kept"); sym_eq(r[1], y, "guess kept"); } sym_eq(g[0], x, "guess"); errno = 0; r = multiroot_newton<N>(lin<N>, g, 0.25, 0); if (fx * fx + fy * fy > 0.0625) { sym_check(errno == ERANGE && r.size() == 2 && sym_isnan(r[0]) && sym_isnan(r[1]), "no convergence"); } else { sym_check(errno == 0, "converged"); }
}
HARNESS(multiroot, "t=100", "multivariate Newton solves four linear systems from every guess and reports non-convergence, in fixed and dynamic vectors") {
	int k = (int) sym_choose("k", 0, 3); for (int i = 0; i < 4; ++i) P[i] = M[k][i]; real x = sym_real("x"), y = sym_real("y"); if (sym_choose("dynamic", 0, 1)) newton<0>(x, y); else newton<2>(x, y);
}
HARNESS(multiroot_fixed, "mode=fp t=60", "multivariate Newton converges to the root of a non-linear system from fixed guesses within the tolerance") {
	int k = (int) sym_choose("k", 0, 2); static const real G[3][2] = {{2, 1}, {1, 3}, {5, 0.5}}; vec2 g = {G[k][0], G[k][1]}; errno = 0; vec2 r = multiroot_newton<2>(quad<2>, g, 1E-6); sym_check(errno == 0, "no error"); sym_check(ab(r[0] * r[1] - 1) < 1E-6 && ab(r[0] * r[0] - 4 * r[1]) < 1E-6, "root");
}
HARNESS(large_intervals, "t=60", "find_root_intervals of a function given by arbitrary values at two of its 6..65 nodes and alternating or constant signs elsewhere") {
	static const int N[] = {6, 8, 9, 10, 16, 17, 33, 64}; int n = N[sym_choose("n", 0, 7)], alt = (int) sym_choose("alt", 0, 1); real u = sym_real("u"), v = sym_real("v"), a = -2, h = 0.25; sym_assume((ab(u) >= 1e-9 || u == 0) && (ab(v) >= 1e-9 || v == 0)); int p = n / 2, q = n; auto val = [=](int i) -> real { if (i == p) return u; if (i == q) return v; return alt && i % 3 == 1 ? -2 : 1; }; auto f = [=](real x) -> real { return val((int) ((x - a) / h + 0.5)); }; auto r = find_root_intervals(f, a, a + n * h, n); unsigned k = 0; for (int i = 0; i < n; ++i) if (val(i) * val(i + 1) <= 0) { sym_check(k < r.size(), "missed"); if (k < r.size()) { sym_eq(r[k][0], a + i * h, "lower"); sym_eq(r[k][1], a + (i + 1) * h, "upper"); } ++k; } sym_check(r.size() == k, "count");
}
HARNESS(large_convergence, "t=100 mode=fp libm", "every method converges to the root of five functions from four guesses or intervals with the default tolerance and iterations") {
	int m = (int) sym_choose("m", 0, 7), k = (int) sym_choose("f", 0, 4), s = (int) sym_choose("s", 0, 3); static const real R[] = {2, 0.6931471805599453, 0.7390851332151607, 1.4142135623730951, 3}; real r = R[k]; auto f = [k](real x) -> real { switch (k) { case 0: return x * x * x - 8; case 1: return th::exp(x) - 2; case 2: return th::cos(x) - x; case 3: return x * x - 2; default: return (x - 3) * (1 + x * x); } }; auto d = [k](real x) -> real { switch (k) { case 0: return 3 * x * x; case 1: return th::exp(x); case 2: return -th::sin(x) - 1; case 3: return 2 * x; default: return 1 + x * x + 2 * x * (x - 3); } }; auto e = [k](real x) -> real { switch (k) { case 0: return 6 * x; case 1: return th::exp(x); case 2: return -th::cos(x); case 3: return 2; default: return 6 * x - 6; } };
	static const real G[] = {0.0625, -0.03125, 0.125, -0.0625}; real x0 = r + G[s] * (m == 5 ? 0.25 : 1), x; typedef std::function<real(real)> H; H F_ = f, D_ = d, E_ = e; errno = 0; switch (m) { case 0: x = root_newton(F_, D_, x0); break; case 1: x = root_halley(F_, D_, E_, x0); break; case 2: x = root_chebyshev(F_, D_, E_, x0); break; case 3: x = root_ostrowski(F_, D_, x0); break; case 4: x = root_jarrat(F_, D_, x0); break; case 5: x = root_steffensen(F_, x0); break; case 6: x = root_bisect(F_, r - 0.5 - s * 0.1, r + 0.75); break; default: x = root_itp(F_, r - 0.5 - s * 0.1, r + 0.75); } sym_check(errno == 0, "no error"); sym_near(x, r, 2e-7, "root");
}
HARNESS(large_roots, "t=100 mode=fp", "all simple roots of polynomials of degree 3..6 with separated roots are found, in order") {
	int n = (int) sym_choose("n", 3, 6), s = (int) sym_choose("s", 0, 1); static const real Z[] = {-2.3, -1.1, 0.4, 1.7, 2.9, 4.2}; polynomial<real> p({s ? -2.0 : 1.0}); for (int i = 0; i < n; ++i) p *= polynomial<real>({-Z[i], 1.0}); errno = 0; auto v = roots(p, 1e-8, 1200u); sym_check(errno == 0, "no error"); for (int i = 0; i < n; ++i) { bool in = false; for (unsigned j = 0; j < v.size(); ++j) if (ab(v[j] - Z[i]) < 1e-6) in = true; sym_check(in, "found"); } for (unsigned j = 0; j < v.size(); ++j) { bool in = false; for (int i = 0; i < n; ++i) if (ab(v[j] - Z[i]) < 1e-6) in = true; sym_check(in, "root"); if (j) sym_check(v[j] >= v[j - 1], "order"); }
}
template<unsigned N> static autodiff::dvec_t<N> linn(autodiff::dvec_t<N> x) { autodiff::dvec_t<N> y; unsigned n = x.size(); y.resize(n); for (unsigned i = 0; i < n; ++i) { y[i] = (n + 2.0) * x[i] - (i + 1.0); for (unsigned j = 0; j < n; ++j) if (j != i) y[i] = y[i] + (real) ((int) (i + 2 * j) % 3 - 1) * x[j]; } return y; }
HARNESS(large_multiroot, "t=100", "multivariate Newton solves linear systems of 3, 4, 5 and 6 equations from guesses with two arbitrary components") {
	int n = (int) sym_choose("n", 3, 6); vec<real> g; g.resize(n); for (int i = 0; i < n; ++i) g[i] = i == 0 ? sym_real("x") : i == n - 1 ? sym_real("y") : i * 0.5; sym_assume(g[0] > 4); errno = 0; vec<real> r = multiroot_newton<0>(linn<0>, g, 0.25, 4); sym_check(errno == 0 && (int) r.size() == n, "no error"); if ((int) r.size() != n) return; for (int i = 0; i < n; ++i) { real s = (n + 2) * r[i] - (i + 1); for (int j = 0; j < n; ++j) if (j != i) s += ((i + 2 * j) % 3 - 1) * r[j]; sym_near(s, 0, 1e-9, "solved"); }
}
HARNESS(roots_wide, "t=100 mode=fp", "roots of polynomials far from the origin: x - r, x^2 - r^2 and r^2 x - 1 for r = 20, 200, 5000, 3e5 of both signs") {
	static const real R[] = {20, 200, 5000, 300000}; int c = (int) sym_choose("r", 0, 3), s = (int) sym_choose("s", 0, 1); real r = s ? R[c] : -R[c], t = 1e-4; polynomial<real> p({-r, 1.0}), q({-r * r, 0.0, 1.0}), w({-1.0, r * r}); errno = 0; auto a = roots(p, t), b = roots(q, t), d = roots(w, t); sym_check(errno == 0, "no error"); sym_check(a.size() >= 1, "found"); for (unsigned i = 0; i < a.size(); ++i) sym_check(ab(a[i] - r) <= t, "linear"); bool lo = false, hi = false; for (unsigned i = 0; i < b.size(); ++i) { if (ab(b[i] - R[c]) <= t) hi = true; else if (ab(b[i] + R[c]) <= t) lo = true; else sym_check(false, "not a root"); } sym_check(lo && hi, "quadratic"); sym_check(d.size() >= 1, "small root found"); for (unsigned i = 0; i < d.size(); ++i) sym_check(ab(d[i] - 1 / (r * r)) <= t, "small root");
}
// multiple roots and stationary points in floating point
static real sq(real x) { return (x - 2) * (x - 2); }
static real dsq(real x) { return 2 * (x - 2); }
static real above(real x) { return (x - 2) * (x - 2) + P[3]; }
static real two(real) { return 2; }
template<typename T> static T tsq(T x) { return (x - 2.0) * (x - 2.0) + P[3]; }
static real method(int m, real c, real x0, unsigned it) { P[3] = c; switch (m) { case 0: return root_newton<fn>(above, dsq, x0, 1e-8, it); case 1: return root_halley<fn>(above, dsq, two, x0, 1e-8, it); case 2: return root_chebyshev<fn>(above, dsq, two, x0, 1e-8, it); case 3: return root_ostrowski<fn>(above, dsq, x0, 1e-8, it); case 4: return root_jarrat<fn>(above, dsq, x0, 1e-8, it); case 5: return root_steffensen<fn>(above, x0, 1e-8, it); case 6: return root_newton(tsq<dual>, x0, 1e-8, it); case 7: return root_halley(tsq<dual2>, x0, 1e-8, it); default: return root_chebyshev(tsq<dual2>, x0, 1e-8, it); } }
HARNESS(multiple_root, "t=60 mode=fp", "every method returns a double root from a guess already at it and, but for an error, a point within 1e-3 of it from other guesses") {
	static const real X[] = {2, 1, 2.5, -7}; int m = (int) sym_choose("m", 0, 8), k = (int) sym_choose("k", 0, 3); errno = 0; real x = method(m, 0, X[k], 100); if (k == 0) sym_check(x == 2 && errno == 0, "exact"); else if (sym_isnan(x)) sym_check(errno == ERANGE, "error"); else sym_check(errno == 0 && ab(x - 2) < 1e-3, "root");
}
HARNESS(stationary, "t=60 mode=fp", "a guess with null derivative, and functions without roots: the result has |f| within the tolerance or is NaN with ERANGE, never an infinity or a silent NaN") {
	static const real C[] = {-1, 1, 100, 1e-9}, X[] = {2, 1, 3.5}; int m = (int) sym_choose("m", 0, 8), c = (int) sym_choose("c", 0, 3), k = (int) sym_choose("k", 0, 2); errno = 0; real x = method(m, C[c], X[k], 60); if (sym_isnan(x)) sym_check(errno == ERANGE, "error reported"); else { sym_check(errno == 0 && ab(x) < 1e12, "no error"); if (c < 3) sym_check(ab(above(x)) <= 1e-6, "root"); }
	typedef std::function<complex<real>(complex<real>)> G; G g = [](complex<real> z) { return z * z; }, e = [](complex<real> z) { return z * complex<real>(2, 0); }; errno = 0; complex<real> z = root_newton<real>(g, e, complex<real>(0, 0), 1e-8); sym_check(z.Re() == 0 && z.Im() == 0 && errno == 0, "complex double root"); G h = [](complex<real> z) { return z * z + complex<real>(1, 0); }; z = root_newton<real>(h, e, complex<real>(0, 0), 1e-8); sym_check(sym_isnan(z.Re()) && errno == ERANGE, "complex stationary point");
}
