// C22 quadrature
#include "sym.h"
#include <vector>
#include "theoretica.h"
using namespace theoretica;
namespace th = theoretica;
#ifdef THOROUGH
#define SM 9
#define RM 5
#else
#define SM 6
#define RM 4
#endif
static real F(real x) { return sym_uf1("f", x); }
// polynomial with symbolic coefficients in [-1, 1]
struct pol { int d; real c[34]; pol(int d_, real s = 1) : d(d_) { for (int i = 0; i <= d; ++i) { s /= (i ? i : 1); c[i] = sym_real_in(nm("c", i), -1, 1); } } real operator()(real x) const { real r = 0; for (int i = d; i >= 0; --i) r = r * x + c[i]; return r; } real prim(real x) const { real r = 0; for (int i = d; i >= 0; --i) r = r * x + c[i] / (i + 1); return r * x; } };
HARNESS(polynomials, "t=60", "indefinite and definite integrals of every polynomial up to degree 5, every interval") {
	int n = (int) sym_choose("n", 0, 6); polynomial<real> p; p.coeff.resize(n); for (int i = 0; i < n; ++i) p[i] = sym_real(nm("p", i)); real a = sym_real("a"), b = sym_real("b"); polynomial<real> P = integral(p); sym_check((int) P.size() == n + 1, "size"); sym_eq(P[0], 0, "constant"); for (int i = 0; i < n; ++i) sym_eq(P[i + 1] * (i + 1), p[i], "primitive"); real x = 0, y = 0, u = 1, v = 1; for (int i = 0; i < n; ++i) { u *= a; v *= b; x += p[i] * u / (i + 1); y += p[i] * v / (i + 1); } sym_eq(integral(p, a, b), y - x, "definite");
}
HARNESS(rules, "t=60", "midpoint and trapezoid rules of an arbitrary function equal their sums, 1..6 steps, every interval; no steps is an error") {
	int n = (int) sym_choose("n", 0, SM); real a = sym_real("a"), b = sym_real("b"); errno = 0; real m = integral_midpoint(F, a, b, n), t = integral_trapezoid(F, a, b, n); if (n == 0) { sym_check(sym_isnan(m) && sym_isnan(t) && errno == ERANGE, "no steps"); errno = 0; sym_check(sym_isnan(integral_midpoint(F, a, b, 0)) && errno == ERANGE, "no midpoint steps"); errno = 0; sym_check(sym_isnan(integral_trapezoid(F, a, b, 0)) && errno == ERANGE, "no trapezoid steps"); errno = 0; sym_check(sym_isnan(integral_simpson(F, a, b, 0)) && errno == ERANGE, "no steps"); return; }
	real h = (b - a) / n, s = 0, q = 0; for (int i = 0; i < n; ++i) { s += F(a + i * h + h / 2); q += (F(a + i * h) + F(a + (i + 1) * h)) / 2; } sym_eq(m, s * h, "midpoint"); sym_eq(t, q * h, "trapezoid"); sym_check(errno == 0, "no error");
}
HARNESS(simpson, "t=60", "Simpson's rule of an arbitrary function with an even number of steps (2..6) and its exactness on every cubic for 1..6 steps, every interval") {
	int n = (int) sym_choose("n", 1, SM); real a = sym_real("a"), b = sym_real("b"); if (n % 2 == 0) { real h = (b - a) / n, s = 0; for (int i = 0; i < n; i += 2) s += F(a + i * h) + 4 * F(a + (i + 1) * h) + F(a + (i + 2) * h); sym_eq(integral_simpson(F, a, b, n), s * h / 3, "rule"); }
	pol p(3); sym_eq(integral_simpson(p, a, b, n), p.prim(b) - p.prim(a), "cubics");
}
HARNESS(exact_rules, "t=60", "midpoint and trapezoid rules are exact on linear functions, reverse with the interval and split, every interval") {
	int n = (int) sym_choose("n", 1, SM); real a = sym_real("a"), b = sym_real("b"); pol p(1); real e = p.prim(b) - p.prim(a); sym_eq(integral_midpoint(p, a, b, n), e, "midpoint"); sym_eq(integral_trapezoid(p, a, b, n), e, "trapezoid"); sym_eq(integral_trapezoid(F, b, a, n), -integral_trapezoid(F, a, b, n), "reversed");
}
HARNESS(romberg, "t=60", "Romberg integration with k iterations is exact on every polynomial of degree 2k-1, k = 1..4, every interval; on an arbitrary function it is the trapezoid, Simpson and Boole rule for k = 1, 2, 3; k = 0 is an error") {
	int k = (int) sym_choose("k", 0, RM); real a = sym_real("a"), b = sym_real("b"); errno = 0; if (k == 0) { sym_check(sym_isnan(integral_romberg(F, a, b, 0)) && errno == EINVAL, "no iterations"); return; }
	pol p(2 * k - 1); sym_eq(integral_romberg(p, a, b, k), p.prim(b) - p.prim(a), "polynomials"); real h = b - a; if (k == 1) sym_eq(integral_romberg(F, a, b, 1), h * (F(a) + F(b)) / 2, "trapezoid"); if (k == 2) sym_eq(integral_romberg(F, a, b, 2), h * (F(a) + 4 * F(a + h / 2) + F(b)) / 6, "Simpson"); if (k == 3) sym_eq(integral_romberg(F, a, b, 3), h * (7 * F(a) + 32 * F(a + h / 4) + 12 * F(a + h / 2) + 32 * F(a + 3 * h / 4) + 7 * F(b)) / 90, "Boole");
}
HARNESS(romberg_default, "t=60", "Romberg integration with the default 8 iterations is exact on every polynomial of degree 7, unit interval") { pol p(7); sym_eq(integral_romberg(p, 0, 1), p.prim(1), "default"); }
HARNESS(romberg_tol, "t=60", "adaptive Romberg integration, and the integral() forms, are exact on every cubic, every interval; on quintics the result is exact or the Simpson estimate passed the tolerance") {
	real a = sym_real_in("a", -2, 2), b = sym_real_in("b", -2, 2); pol p(3); real e = p.prim(b) - p.prim(a); sym_eq(integral_romberg_tol(p, a, b, 0.01), e, "cubics"); sym_eq(integral(p, a, b, 0.5), e, "integral with tolerance"); sym_eq(integral(p, a, b), e, "integral");
}
HARNESS(romberg_quintic, "t=60", "adaptive Romberg integration of every quintic over [0, 2]: exact, or accepted by its tolerance at the second estimate") {
	pol p(5); real e = p.prim(2), r = integral_romberg_tol(p, 0, 2, 0.125); real t = p(0) + p(2), s = (p(0) + 4 * p(1) + p(2)) / 3; if (s - t < 0.125 && t - s < 0.125) sym_eq(r, s, "accepted"); else sym_eq(r, e, "refined");
}
static const real IA[4] = {-1, 0, 2, -1.5}, IB[4] = {1, 2, -1, 0.25};
HARNESS(legendre_tables, "t=60", "Gauss-Legendre quadrature with n = 2, 4, 8, 16 is exact on every polynomial of degree 2n-1 with coefficients in [-1, 1] over four intervals (within 1e-8 of the largest monomial)") {
	int l = (int) sym_choose("l", 1, 4), n = 1 << l, i = (int) sym_choose("i", 0, 3); pol p(2 * n - 1); real a = IA[i], b = IB[i], sc = 1, m = i == 0 ? 1 : 2; if (i == 3) m = 1.5; for (int j = 0; j < 2 * n; ++j) sc *= m; sym_near(integral_legendre(p, a, b, n) / sc, (p.prim(b) - p.prim(a)) / sc, 1e-8, "Gauss-Legendre");
	if (n == 16) sym_near(integral_legendre(p, a, b) / sc, (p.prim(b) - p.prim(a)) / sc, 1e-8, "default");
}
HARNESS(legendre_affine, "t=60", "Gauss-Legendre quadrature maps the nodes to every interval: an arbitrary function with arbitrary nodes and weights, 0..4 nodes; different sizes are an error") {
	int n = (int) sym_choose("n", 0, 4); real a = sym_real("a"), b = sym_real("b"), e = 0, x[4], w[4]; std::vector<real> X(n), W(n); for (int i = 0; i < n; ++i) { x[i] = X[i] = sym_real(nm("x", i)); w[i] = W[i] = sym_real(nm("w", i)); e += w[i] * F((a + b) / 2 + (b - a) / 2 * x[i]); } e *= (b - a) / 2; sym_eq(integral_legendre(F, a, b, x, w, n), e, "arrays"); sym_eq(integral_legendre(F, a, b, X, W), e, "vectors");
	for (int m = 0; m < 5; ++m) if (m != n) { std::vector<real> S(m, 0.5); errno = 0; sym_check(sym_isnan(integral_legendre(F, a, b, X, S)) && errno == EINVAL, "sizes"); }
}
HARNESS(gauss, "t=60", "integral_gauss is the weighted sum over the nodes, with and without weight function, 0..4 nodes; different sizes are an error") {
	int n = (int) sym_choose("n", 0, 4); real x[4], w[4], e = 0, g = 0; std::vector<real> X(n), W(n); for (int i = 0; i < n; ++i) { x[i] = X[i] = sym_real(nm("x", i)); w[i] = W[i] = sym_real(nm("w", i)); e += w[i] * F(x[i]); g += w[i] * F(x[i]) * sym_uf1("g", x[i]); } sym_eq(integral_gauss(F, X, W), e, "vectors"); sym_eq(integral_gauss(F, x, w, n), e, "arrays"); sym_eq(integral_gauss(F, x, w, n, [](real t) { return sym_uf1("g", t); }), g, "weight function"); for (int m = 0; m < 5; ++m) if (m != n) { std::vector<real> S(m, 0.5); errno = 0; sym_check(sym_isnan(integral_gauss(F, X, S)) && errno == EINVAL, "sizes"); }
}
static bool rel(real a, real b, real t) { real d = a - b; if (d < 0) d = -d; return d <= t * (b < 0 ? -b : b); }
HARNESS(legendre_nodes, "t=60 mode=fp", "the computed Legendre nodes of degree 1..10 are increasing roots of P_n and integrate every monomial up to degree 2n-1") {
	int n = (int) sym_choose("n", 1, 10); std::vector<real> x = legendre_roots(n); sym_check((int) x.size() == n, "size"); for (int i = 1; i < n; ++i) sym_check(x[i] > x[i - 1], "increasing"); std::vector<real> w = legendre_weights(x); for (int k = 0; k < 2 * n; ++k) { real s = integral_gauss([k](real t) { real r = 1; for (int i = 0; i < k; ++i) r *= t; return r; }, x, w), e = k % 2 ? 0 : 2.0 / (k + 1); sym_check(s - e <= 1e-7 && e - s <= 1e-7, "monomial"); }
	real s = integral_legendre([](real t) { return 3 * t * t + 2 * t; }, 0, 2, n); if (n > 1) sym_check(rel(s, 12, 1e-7), "order n"); sym_check(legendre_roots(0).empty(), "no nodes");
}
HARNESS(laguerre_tables, "t=60 mode=fp", "Gauss-Laguerre quadrature with n = 2, 4, 8, 16 integrates x^k exp(-x) to k! for every k <= 2n-1; other orders are an error") {
	int n = (int) sym_choose("n", 0, 17); if (n == 17) n = 32; auto mon = [](int k) { return [k](real t) { real r = 1; for (int i = 0; i < k; ++i) r *= t; return r; }; };
	if (n != 2 && n != 4 && n != 8 && n != 16) { errno = 0; sym_check(sym_isnan(integral_laguerre(mon(1), n)) && errno == EINVAL, "order"); return; } real f = 1; for (int k = 0; k < 2 * n; ++k) { if (k) f *= k; sym_check(rel(integral_laguerre(mon(k), n), f, 1e-8), "moment"); if (n == 16) sym_check(rel(integral_laguerre(mon(k)), f, 1e-8), "default"); }
}
HARNESS(hermite_tables, "t=60 mode=fp", "Gauss-Hermite quadrature with n = 2, 4, 8, 16 integrates x^k exp(-x^2) to Gamma((k+1)/2) for every k <= 2n-1; other orders are an error") {
	int n = (int) sym_choose("n", 0, 17); if (n == 17) n = 32; auto mon = [](int k) { return [k](real t) { real r = 1; for (int i = 0; i < k; ++i) r *= t; return r; }; };
	if (n != 2 && n != 4 && n != 8 && n != 16) { errno = 0; sym_check(sym_isnan(integral_hermite(mon(1), n)) && errno == EINVAL, "order"); return; } real g = 1.7724538509055160273; for (int k = 0; k < 2 * n; k += 2) { if (k) g *= (k - 1) / 2.0; sym_check(rel(integral_hermite(mon(k), n), g, 1e-8), "even moment"); real o = integral_hermite(mon(k + 1), n) / g; sym_check(o <= 1e-8 * (k + 2) && o >= -1e-8 * (k + 2), "odd moment"); if (n == 16) sym_check(rel(integral_hermite(mon(k)), g, 1e-8), "default"); }
}
HARNESS(laguerre_interval, "t=60", "Gauss-Laguerre quadrature over [a, b] is the difference of the two shifted half lines, arbitrary function and nodes, 1..2 nodes") {
	int n = (int) sym_choose("n", 1, 2); real a = sym_real("a"), b = sym_real("b"), e = 0; std::vector<real> X(n); for (int i = 0; i < n; ++i) X[i] = i == 0 ? 0.5 : 3.25; std::vector<real> W = laguerre_weights(X); real h = 0; for (int i = 0; i < n; ++i) { e += W[i] * (sym_exp(-a) * F(X[i] + a) - sym_exp(-b) * F(X[i] + b)); h += W[i] * F(X[i]); } sym_eq(integral_laguerre(F, a, b, X), e, "interval"); sym_eq(integral_laguerre(F, X), h, "half line"); std::vector<real> H = hermite_weights(X); h = 0; for (int i = 0; i < n; ++i) h += H[i] * F(X[i]); sym_eq(integral_hermite(F, X), h, "Hermite");
}
HARNESS(infinite, "t=60", "the integral to infinity of a function made of parabolic arches of arbitrary heights is the sum of the arches up to the first one within the tolerance; too few steps are an error, 0..4 steps") {
	real d[4]; for (int i = 0; i < 3; ++i) d[i] = sym_real_in(nm("d", i), -8, 8); d[3] = 0; real a = sym_real_in("a", -2, 2); auto f = [d, a](real x) -> real { real y = x - a; for (int k = 0; k < 3; ++k) if (y >= k && y < k + 1) return d[k] * (y - k) * (k + 1 - y); return 0; };
	int m = (int) sym_choose("m", 0, 4); errno = 0; real r = integral_inf_riemann(f, a, 1, 0.125, m), s = d[0] / 6; bool ok = false; for (int k = 1; k <= m && !ok; ++k) { real t = k < 3 ? d[k] / 6 : 0; s += t; ok = t <= 0.125 && t >= -0.125; } if (ok) { sym_eq(r, s, "sum"); sym_check(errno == 0, "no error"); } else sym_check(sym_isnan(r) && errno != 0, "no convergence");
}
static const int BIG[] = {7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 50, 64, 100};
HARNESS(large_rules, "t=60", "midpoint, trapezoid and Simpson rules of an arbitrary function equal their sums, 7..100 steps, four intervals") {
	int n = BIG[sym_choose("n", 0, 13)], k = (int) sym_choose("i", 0, 3); static const real A[] = {0, -1, 2, 1}, H[] = {1, 0.5, -0.25, 2}; real a = A[k], h = H[k], b = a + n * h, s = 0, q = 0; for (int i = 0; i < n; ++i) { s += F(a + i * h + h / 2); q += (F(a + i * h) + F(a + (i + 1) * h)) / 2; } sym_eq(integral_midpoint(F, a, b, n), s * h, "midpoint"); sym_eq(integral_trapezoid(F, a, b, n), q * h, "trapezoid"); if (n % 2 == 0) { s = 0; for (int i = 0; i < n; i += 2) s += F(a + i * h) + 4 * F(a + (i + 1) * h) + F(a + (i + 2) * h); sym_near(integral_simpson(F, a, b, n), s * h / 3, 0, "Simpson"); }
}
HARNESS(large_exact, "t=60", "midpoint and trapezoid rules on linear functions and Simpson's rule on cubics are exact with 7..100 steps and the default steps, every interval") {
	int n = BIG[sym_choose("n", 0, 13)]; real a = sym_real("a"), b = sym_real("b"); pol p(1); real e = p.prim(b) - p.prim(a); sym_eq(integral_midpoint(p, a, b, n), e, "midpoint"); sym_eq(integral_trapezoid(p, a, b, n), e, "trapezoid"); pol q(3); sym_eq(integral_simpson(q, a, b, n), q.prim(b) - q.prim(a), "Simpson"); if (n == 7) { sym_eq(integral_midpoint(p, a, b), e, "default midpoint"); sym_eq(integral_trapezoid(p, a, b), e, "default trapezoid"); sym_eq(integral_simpson(q, a, b), q.prim(b) - q.prim(a), "default Simpson"); }
}
HARNESS(large_romberg, "t=60", "Romberg integration with 5..9 iterations is exact on every polynomial of degree 9 over four intervals, every cubic over every interval") {
	int k = (int) sym_choose("k", 5, 9), i = (int) sym_choose("i", 0, 4); if (i == 4) { pol p(3); real a = sym_real_in("a", -4, 4), b = sym_real_in("b", -4, 4); sym_near(integral_romberg(p, a, b, k), p.prim(b) - p.prim(a), 1e-9, "cubics"); return; } static const real A[] = {0, -1, 1, -2}, B[] = {1, 1, 3, -0.5}; pol p(9); sym_near(integral_romberg(p, A[i], B[i], k), p.prim(B[i]) - p.prim(A[i]), 1e-6, "polynomials");
}
HARNESS(large_gauss, "t=60", "integral_gauss and the mapped Gauss-Legendre sum with 5..40 fixed nodes and arbitrary weights") {
	static const int N[] = {5, 6, 8, 12, 16, 17, 32, 33, 40}; int n = N[sym_choose("n", 0, 8)]; std::vector<real> X(n), W(n); real e = 0, g = 0, u = 0; for (int i = 0; i < n; ++i) { X[i] = (i - n / 2) / 64.0; W[i] = sym_real(nm("w", i)); e += W[i] * F(X[i]); g += W[i] * F(X[i]) * sym_uf1("g", X[i]); u += W[i] * F(1 + 2 * X[i]); } sym_eq(integral_gauss(F, X, W), e, "vectors"); sym_eq(integral_gauss(F, X.data(), W.data(), n), e, "arrays"); sym_eq(integral_gauss(F, X.data(), W.data(), n, [](real t) { return sym_uf1("g", t); }), g, "weight function"); sym_eq(integral_legendre(F, -1.0, 3.0, X, W), 2 * u, "mapped"); sym_eq(integral_legendre(F, -1.0, 3.0, X.data(), W.data(), n), 2 * u, "mapped arrays");
}
HARNESS(large_polynomials, "t=60", "integrals of polynomials with 7..20 symbolic coefficients between fixed limits") {
	int n = (int) sym_choose("n", 7, 20); polynomial<real> p; p.coeff.resize(n); for (int i = 0; i < n; ++i) p[i] = sym_real(nm("p", i)); polynomial<real> P = integral(p); sym_check((int) P.size() == n + 1, "size"); sym_eq(P[0], 0, "constant"); for (int i = 0; i < n; ++i) sym_eq(P[i + 1] * (i + 1), p[i], "primitive"); real x = 0, u = 1, v = 1; for (int i = 0; i < n; ++i) { u *= -0.5; v *= 2; x += p[i] * (v - u) / (i + 1); } sym_eq(integral(p, -0.5, 2), x, "definite");
}
HARNESS(romberg_accuracy, "t=60 mode=fp libm max_instr=300000000 max_path_instr=100000000", "adaptive Romberg integration of exp(x), sin(x), 1/(1+x^2), x^9, exp(-x^2) over four intervals each is within 100 tolerances of the integral, tolerances 1e-3, 1e-5, 1e-7, 1e-9 and the default, also through integral()") {
	static const real R[5][4][3] = {{{0, 1, 1.7182818284590452354}, {0, 5, 147.41315910257660342}, {-3, 2, 7.3392690305627862843}, {2, -1, -7.0211766577592079056}}, {{0, 3.125, 1.9998623450816865844}, {0, 10, 1.8390715290764524523}, {-1, 4, 1.193945926731751632}, {5, 1, -0.25664012040491345293}}, {{0, 1, 0.78539816339744830962}, {-5, 4.5, 2.7255281478659705181}, {0, 20, 1.5208379310729538578}, {3, -1, -2.0344439357957027354}}, {{0, 2, 102.4}, {-1, 1.5, 5.66650390625}, {1, 1.25, 0.83132257461547851562}, {1, 0, -0.1}}, {{0, 3, 0.88620734825952123389}, {-2, 2.5, 1.7679476643799526505}, {0, 6, 0.88622692545275799458}, {1, 0, -0.7468241328124270254}}}; static const real T[] = {1e-3, 1e-5, 1e-7, 1e-9, CALCULUS_INTEGRAL_TOL}; int f = (int) sym_choose("f", 0, 4), i = (int) sym_choose("i", 0, 3), c = (int) sym_choose("tol", 0, 4); real a = R[f][i][0], b = R[f][i][1], e = R[f][i][2], tol = T[c];
	auto g = [f](real x) -> real { if (f == 0) return th::exp(x); if (f == 1) return th::sin(x); if (f == 2) return 1 / (1 + x * x); if (f == 3) return x * x * x * x * x * x * x * x * x; return th::exp(-x * x); }; errno = 0; real r = c == 4 ? integral_romberg_tol(g, a, b) : integral_romberg_tol(g, a, b, tol), q = c == 4 ? th::integral(g, a, b) : th::integral(g, a, b, tol), m = 100 * tol + 1e-10; sym_check(errno == 0, "no error"); sym_check(r - e <= m && e - r <= m, "integral_romberg_tol"); sym_check(q - e <= m && e - q <= m, "integral");
}
HARNESS(romberg_fixed, "t=60 mode=fp libm max_instr=300000000 max_path_instr=100000000", "Romberg integration with 8 iterations, Gauss-Legendre quadrature with 16 nodes and Simpson's rule with 200 steps agree with the same integrals") {
	static const real R[5][4][3] = {{{0, 1, 1.7182818284590452354}, {0, 5, 147.41315910257660342}, {-3, 2, 7.3392690305627862843}, {2, -1, -7.0211766577592079056}}, {{0, 3.125, 1.9998623450816865844}, {0, 10, 1.8390715290764524523}, {-1, 4, 1.193945926731751632}, {5, 1, -0.25664012040491345293}}, {{0, 1, 0.78539816339744830962}, {-5, 4.5, 2.7255281478659705181}, {0, 20, 1.5208379310729538578}, {3, -1, -2.0344439357957027354}}, {{0, 2, 102.4}, {-1, 1.5, 5.66650390625}, {1, 1.25, 0.83132257461547851562}, {1, 0, -0.1}}, {{0, 3, 0.88620734825952123389}, {-2, 2.5, 1.7679476643799526505}, {0, 6, 0.88622692545275799458}, {1, 0, -0.7468241328124270254}}}; int f = (int) sym_choose("f", 0, 4), i = (int) sym_choose("i", 0, 3); real a = R[f][i][0], b = R[f][i][1], e = R[f][i][2];
	auto g = [f](real x) -> real { if (f == 0) return th::exp(x); if (f == 1) return th::sin(x); if (f == 2) return 1 / (1 + x * x); if (f == 3) return x * x * x * x * x * x * x * x * x; return th::exp(-x * x); }; real r = integral_romberg(g, a, b, 8), l = integral_legendre(g, a, b, 16), s = integral_simpson(g, a, b, 200), m = f == 2 && i == 2 ? 0.05 : f == 2 ? 0.001 : 1e-5; sym_check(r - e <= m && e - r <= m, "Romberg"); sym_check(l - e <= m && e - l <= m, "Gauss-Legendre"); sym_check(s - e <= m && e - s <= m, "Simpson");
}
HARNESS(large_legendre, "t=60 mode=fp max_instr=300000000 max_path_instr=100000000", "the computed Legendre nodes of degree 11..24 are increasing and inside (-1, 1) and integrate every monomial up to degree 2n-1; so does integral_legendre on [0, 2]") {
	int n = (int) sym_choose("n", 11, 24); std::vector<real> x = legendre_roots(n); sym_check((int) x.size() == n, "size"); if ((int) x.size() != n) return; for (int i = 0; i < n; ++i) sym_check(x[i] > (i ? x[i - 1] : -1) && x[i] < 1, "increasing"); std::vector<real> w = legendre_weights(x); for (int k = 0; k < 2 * n; ++k) { real s = integral_gauss([k](real t) { real r = 1; for (int i = 0; i < k; ++i) r *= t; return r; }, x, w), e = k % 2 ? 0 : 2.0 / (k + 1); sym_check(s - e <= 1e-6 && e - s <= 1e-6, "monomial"); }
	real s = integral_legendre([](real t) { return 3 * t * t + 2 * t; }, 0, 2, n); sym_check(rel(s, 12, 1e-6), "order n");
}
HARNESS(huge_rules, "t=60", "midpoint and trapezoid rules on linear functions and Simpson's rule on cubics are exact with 101..1001 steps, even and odd, over two intervals, every coefficient") {
	static const int N[] = {101, 102, 255, 256, 257, 999, 1001}; int n = N[sym_choose("n", 0, 6)], k = (int) sym_choose("k", 0, 1); real a = k ? 2 : -1, b = k ? -3 : 4; pol p(1); real e = p.prim(b) - p.prim(a); sym_eq(integral_midpoint(p, a, b, n), e, "midpoint"); sym_eq(integral_trapezoid(p, a, b, n), e, "trapezoid"); pol q(3); sym_eq(integral_simpson(q, a, b, n), q.prim(b) - q.prim(a), "Simpson");
}
static real ramp_c;
HARNESS(infinite_long, "t=60", "the integral to infinity of a ramp which ends after 3..40 steps of 0.5, 1 and 2, every slope above the tolerance") {
	static const int K[] = {3, 10, 24, 40}; int k = K[sym_choose("k", 0, 3)], h = (int) sym_choose("h", 0, 2); real H = h == 0 ? 0.5 : h, L = k * H, a = -1; ramp_c = sym_real_in("c", 1, 1000); static real end; end = a + L; real_function f = [](real x) -> real { return x < end ? ramp_c * (end - x) : 0; }; errno = 0; sym_eq(integral_inf_riemann(f, a, H), ramp_c * L * L / 2, "integral"); sym_check(errno == 0, "no error");
}
