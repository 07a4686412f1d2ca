// C11 orthogonal polynomials
#include "sym.h"
#include <vector>
#include "theoretica.h"
#include "polynomial/orthogonal.h"
using namespace theoretica;
namespace th = theoretica;
typedef polynomial<real> P;
#ifdef THOROUGH
#define N 24
#else
#define N 14
#endif
static real cf(const P& p, unsigned i) { return i < p.coeff.size() ? p.coeff[i] : 0.0; }
static real F(int n) { real r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; }
static real C(int n, int k) { return F(n) / F(k) / F(n - k); }
static real p2(int n) { real r = 1; for (int i = 0; i < n; ++i) r *= 2; return r; }
static real ev(const P& p, real x) { real s = 0, w = 1; for (unsigned i = 0; i < p.coeff.size(); ++i) { s += p.coeff[i] * w; w *= x; } return s; }
HARNESS(legendre, "t=60", "Legendre coefficients against the explicit sum, degree 0..14") {
	int n = (int) sym_choose("n", 0, N);
	P p = legendre_polynomial(n);
	std::vector<real> e(n + 1);
	for (int k = 0; 2 * k <= n; ++k) e[n - 2 * k] = (k % 2 ? -1 : 1) * C(n, k) * C(2 * n - 2 * k, n) / p2(n);
	for (int i = 0; i <= n; ++i) sym_eq(cf(p, i), e[i], "coefficient");
	sym_check((int) p.size() == n + 1, "size");
	real q = legendre_polyn_normalization(n); sym_near(q * q, (2 * n + 1) / 2.0, 1e-9, "normalization");
}
HARNESS(hermite, "t=60", "Hermite coefficients against the explicit sum, degree 0..14") {
	int n = (int) sym_choose("n", 0, N);
	P p = hermite_polynomial(n);
	std::vector<real> e(n + 1);
	for (int k = 0; 2 * k <= n; ++k) e[n - 2 * k] = (k % 2 ? -1 : 1) * F(n) / F(k) / F(n - 2 * k) * p2(n - 2 * k);
	for (int i = 0; i <= n; ++i) sym_eq(cf(p, i), e[i], "coefficient");
	if (n <= 12) { real q = hermite_polyn_normalization(n); sym_near(q * q * p2(n) * F(n) * SQRTPI, 1, 1e-9, "normalization"); }
}
HARNESS(laguerre, "t=60", "Laguerre coefficients against the explicit sum, degree 0..14") {
	int n = (int) sym_choose("n", 0, N);
	P p = laguerre_polynomial(n);
	for (int k = 0; k <= n; ++k) sym_eq(cf(p, k), (k % 2 ? -1 : 1) * C(n, k) / F(k), "coefficient");
}
HARNESS(general_laguerre, "t=60", "generalised Laguerre coefficients for every alpha against the explicit sum, degree 0..8") {
	int n = (int) sym_choose("n", 0, 8);
	real a = sym_real("alpha");
	P p = general_laguerre_polynomial(a, n);
	for (int k = 0; k <= n; ++k) { // C(n+a, n-k) (-1)^k / k!
		real c = 1;
		for (int j = 0; j < n - k; ++j) c *= (n + a - j) / (j + 1);
		sym_eq(cf(p, k), (k % 2 ? -1 : 1) * c / F(k), "coefficient");
	}
}
HARNESS(chebyshev, "t=60", "Chebyshev polynomials of both kinds: T_n(cos t) = cos(nt), U_n(cos t) sin t = sin((n+1)t) through the half-angle parametrisation, degree 0..14") {
	int n = (int) sym_choose("n", 0, N);
	P t = chebyshev1_polynomial(n), u = chebyshev2_polynomial(n);
	real z = sym_real("z"); // x = (z + 1/z)/2: T_n = (z^n + z^-n)/2, U_n = (z^(n+1) - z^-(n+1))/(z - 1/z)
	sym_assume(z > 1e-9 && z != 1);
	real x = (z + 1 / z) / 2, a = 1;
	for (int i = 0; i < n; ++i) a *= z;
	sym_eq(ev(t, x), (a + 1 / a) / 2, "first kind");
	sym_eq(ev(u, x) * (z - 1 / z), a * z - 1 / (a * z), "second kind");
	sym_check((int) t.size() == n + 1 && (int) u.size() == n + 1, "size");
}
static P dn(P p, int m) { for (int i = 0; i < m; ++i) { P q; for (unsigned j = 1; j < p.coeff.size(); ++j) q.coeff.push_back(p.coeff[j] * j); if (!q.coeff.size()) q.coeff.push_back(0); p = q; } return p; }
HARNESS(assoc_legendre, "t=60", "associated Legendre functions: (-1)^m (1-x^2)^(m/2) P_l^(m)(x), negative m by (l-m)!/(l+m)!, |m| <= l <= 5, every x in [-1,1]") {
	int l = (int) sym_choose("l", 0, 5), m = (int) sym_choose("m", -5, 5);
	sym_assume(m <= l && -m <= l);
	real x = sym_real("x");
	sym_assume(x >= -1 && x <= 1);
	int am = m < 0 ? -m : m;
	real w = 1;
	for (int i = 0; i < am; ++i) w *= sym_sqrt(1 - x * x);
	real d = ev(dn(legendre_polynomial(l), am), x);
	real f = m < 0 ? F(l - am) / F(l + am) : (am % 2 ? -1.0 : 1.0);
	sym_eq(assoc_legendre_polynomial(l, m)(x), f * w * d, "function");
	if (am % 2 == 0) { P p = assoc_legendre_polynomial_even(l, m); sym_eq(ev(p, x), f * w * d, "even order polynomial"); }
}

static std::vector<real> nodes(int n, const P& D) {
	std::vector<real> r;
	for (int i = 0; i < n; ++i) { r.push_back(sym_real(nm("r", i))); sym_assume(r[i] > -1 && r[i] < 1); sym_assume(ev(D, r[i]) != 0); }
	return r;
}
static const real NODES[12] = {0.125, -0.875, 0.5, -0.25, 0.75, -0.5, 0.3125, 0.9375, -0.625, 0.0625, -0.1875, 0.6875};
HARNESS(weights_legendre, "t=60", "Legendre quadrature weights 2 / ((1-x^2) P_n'(x)^2) at arbitrary nodes, 0..4 nodes") {
	int n = (int) sym_choose("n", 0, 4);
	P L = dn(legendre_polynomial(n), 1);
	std::vector<real> r = nodes(n, L), w = legendre_weights(r);
	sym_check((int) w.size() == n, "size");
	for (int i = 0; i < n; ++i) { real l = ev(L, r[i]); sym_eq(w[i] * (1 - r[i] * r[i]) * l * l, 2, "Legendre"); }
}
HARNESS(weights_laguerre, "t=60", "Laguerre quadrature weights x / ((n+1) L_(n+1)(x))^2 at arbitrary nodes, 0..3 nodes") {
	int n = (int) sym_choose("n", 0, 3);
	P G = laguerre_polynomial(n + 1);
	std::vector<real> r = nodes(n, G), w = laguerre_weights(r);
	sym_check((int) w.size() == n, "size");
	for (int i = 0; i < n; ++i) { real g = (n + 1) * ev(G, r[i]); sym_eq(w[i] * g * g, r[i], "Laguerre"); }
}
HARNESS(weights_hermite, "t=60", "Hermite quadrature weights 2^(n-1) n! sqrt(pi) / (n H_(n-1)(x))^2 at arbitrary nodes, 0..4 nodes") {
	int n = (int) sym_choose("n", 0, 4);
	P H = n ? hermite_polynomial(n - 1) : P();
	std::vector<real> r = nodes(n, H), w = hermite_weights(r);
	sym_check((int) w.size() == n, "size");
	for (int i = 0; i < n; ++i) { real h = n * ev(H, r[i]); sym_eq(w[i] * h * h, p2(n - 1) * F(n) * SQRTPI, "Hermite"); }
}
static P rec(P a, P b, unsigned l) { P r = a; for (unsigned i = 0; i < r.coeff.size(); ++i) r.coeff[i] = r.coeff[i] * l; for (unsigned i = 0; i < b.coeff.size(); ++i) { if (i >= r.coeff.size()) r.coeff.push_back(0); r.coeff[i] += b.coeff[i]; } return r; }
HARNESS(recurrence, "t=60", "gen_polyn_recurr applies the recurrence in order for arbitrary starting polynomials, n <= 6") {
	int n = (int) sym_choose("n", 0, 6);
	P p0 = {sym_real("a"), sym_real("b")}, p1 = {sym_real("c"), sym_real("d")};
	P r = gen_polyn_recurr(p0, p1, rec, n);
	P a = p0, b = p1;
	for (int l = 2; l <= n; ++l) { P c = rec(a, b, l); a = b; b = c; }
	if (n == 0) b = p0;
	sym_eq(r[0], b[0], "constant term"); sym_eq(r[1], b[1], "linear term");
}
HARNESS(large_degree, "t=60", "Legendre, Hermite and Laguerre coefficients against the explicit sums, degrees 15..20 (Hermite to 18), and the recurrence to 20") {
	int n = (int) sym_choose("n", 15, 20);
	P p = legendre_polynomial(n), q = laguerre_polynomial(n), h = hermite_polynomial(n), g = general_laguerre_polynomial(1.0, n);
	for (int k = 0; 2 * k <= n; ++k) { sym_eq(cf(p, n - 2 * k), (k % 2 ? -1 : 1) * C(n, k) * C(2 * n - 2 * k, n) / p2(n), "Legendre"); sym_eq(cf(h, n - 2 * k), (k % 2 ? -1 : 1) * F(n) / F(k) / F(n - 2 * k) * p2(n - 2 * k), "Hermite"); if (n - 2 * k - 1 >= 0) { sym_eq(cf(p, n - 2 * k - 1), 0, "Legendre parity"); sym_eq(cf(h, n - 2 * k - 1), 0, "Hermite parity"); } }
	for (int k = 0; k <= n; ++k) { sym_eq(cf(q, k), (k % 2 ? -1 : 1) * C(n, k) / F(k), "Laguerre"); sym_eq(cf(g, k), (k % 2 ? -1 : 1) * C(n + 1, n - k) / F(k), "generalised Laguerre"); }
	P t = chebyshev1_polynomial(n), u = chebyshev2_polynomial(n); // (z, x) = (2, 5/4): T_n = (z^n + z^-n)/2, U_n = (z^(n+1) - z^-(n+1))/(z - 1/z)
	sym_eq(ev(t, 1.25) * 2, p2(n) + 1 / p2(n), "first kind"); sym_eq(ev(u, 1.25) * 1.5, p2(n + 1) - 1 / p2(n + 1), "second kind"); sym_eq(ev(t, -1.25) * 2, (n % 2 ? -1 : 1) * (p2(n) + 1 / p2(n)), "first kind, parity");
	P a = {sym_real("a"), sym_real("b")}, b = {sym_real("c"), sym_real("d")}, r = gen_polyn_recurr(a, b, rec, n); for (int l = 2; l <= n; ++l) { P c = rec(a, b, l); a = b; b = c; } sym_eq(r[0], b[0], "recurrence"); sym_eq(r[1], b[1], "recurrence");
}
HARNESS(large_weights, "t=60", "Legendre, Laguerre and Hermite weights at 5..12 fixed nodes in three orders") {
	int n = (int) sym_choose("n", 5, 12), k = (int) sym_choose("order", 0, 2);
	std::vector<real> r; for (int i = 0; i < n; ++i) r.push_back(NODES[(i + 5 * k) % 12]);
	P L = dn(legendre_polynomial(n), 1), G = laguerre_polynomial(n + 1), H = hermite_polynomial(n - 1);
	real l, g, h;
	std::vector<real> a = legendre_weights(r), b = laguerre_weights(r), c = hermite_weights(r);
	sym_check((int) a.size() == n && (int) b.size() == n && (int) c.size() == n, "sizes");
	for (int i = 0; i < n; ++i) { l = ev(L, r[i]); g = (n + 1) * ev(G, r[i]); h = n * ev(H, r[i]); sym_eq(a[i] * (1 - r[i] * r[i]) * l * l, 2, "Legendre"); sym_eq(b[i] * g * g, r[i], "Laguerre"); sym_eq(c[i] * h * h, p2(n - 1) * F(n) * SQRTPI, "Hermite"); }
}
static real m_(real x) { return x < 0 ? -x : x; }
HARNESS(normalizations, "mode=fp t=60 max_values=128", "the normalisations 1/sqrt(2^n n! sqrt(pi)) of Hermite (degree 0..100) and sqrt(n + 1/2) of Legendre polynomials (0..100)") {
	int n = (int) sym_choose("n", 0, 100); real w = SQRTPI; for (int i = 1; i <= n; ++i) w *= 2.0 * i; real q = hermite_polyn_normalization(n); sym_check(m_(q * q * w - 1) < 1e-9 && q > 0, "Hermite"); real p = legendre_polyn_normalization(n); sym_check(m_(p * p / (n + 0.5) - 1) < 1e-12 && p > 0, "Legendre");
}
HARNESS(assoc_legendre_large, "mode=fp t=120 max_values=64 max_instr=200000000 max_path_instr=50000000", "associated Legendre functions of l = 6..18 and thirteen orders from -18 to 18 at three points, and their even polynomials, against the recurrence in l") {
	static const int L[] = {6, 9, 11, 12, 15, 18}, M[] = {-18, -15, -12, -11, -10, -8, -7, -4, -1, 3, 6, 11, 18}; int l = L[sym_choose("l", 0, 5)], m = M[sym_choose("m", 0, 12)]; if (m > l || m < -l) return; int k = m < 0 ? -m : m; auto f = assoc_legendre_polynomial(l, m); static const real X[] = {-0.875, 0, 0.5};
	for (int c = 0; c < 3; ++c) { real x = X[c], s = theoretica::sqrt(1 - x * x), a = 1, b; for (int i = 1; i <= k; ++i) a *= -(2 * i - 1) * s; b = (2 * k + 1) * x * a; real p = a; if (l > k) p = b; for (int i = k + 2; i <= l; ++i) { p = ((2 * i - 1) * x * b - (i + k - 1) * a) / (i - k); a = b; b = p; }
		real r = 1; for (int i = l - k + 1; i <= l + k; ++i) { r /= i; } real big = theoretica::sqrt(1 / r); if (m < 0) { p *= r; if (k % 2) p = -p; big *= r; } sym_check(m_(f(x) - p) < 1e-7 * big, "function"); if (k % 2 == 0 && k) { real e = assoc_legendre_polynomial_even(l, m)(x); sym_check(m_(e - p) < 1e-7 * big, "even"); } }
}
HARNESS(weights_hermite_large, "mode=fp t=60", "Hermite weights at 13..30 fixed nodes are 2^(n-1) n! sqrt(pi) / (n H_(n-1)(x))^2, with H by its recurrence at the node") {
	int n = (int) sym_choose("n", 13, 30); std::vector<real> r; for (int i = 0; i < n; ++i) r.push_back(0.37 + 0.125 * i); std::vector<real> w = hermite_weights(r); sym_check(w.size() == (size_t) n, "size"); real f = SQRTPI; for (int i = 1; i <= n; ++i) f *= i * (i < n ? 2.0 : 1.0);
	for (int i = 0; i < n; ++i) { real a = 1, b = 2 * r[i]; for (int j = 2; j < n; ++j) { real c = 2 * r[i] * b - 2 * (j - 1) * a; a = b; b = c; } real want = f / (n * b) / (n * b), q = w[i] / want; if (i < 3 || i == n - 1) sym_check(m_(q - 1) < 1e-3, "weight"); }
}
HARNESS(huge_degree, "mode=fp t=60 max_instr=200000000 max_path_instr=50000000", "Legendre, Chebyshev, Hermite and Laguerre polynomials of degree 21..48 at fixed points against their recurrence at the point") {
	int n = (int) sym_choose("n", 21, 48), k = (int) sym_choose("k", 0, 4); real x = k == 4 ? 0.5 : 0.3, a = 1, b = k == 0 || k == 1 ? x : k == 4 ? 1 - x : 2 * x; P p = k == 0 ? legendre_polynomial(n) : k == 1 ? chebyshev1_polynomial(n) : k == 2 ? chebyshev2_polynomial(n) : k == 3 ? hermite_polynomial(n) : laguerre_polynomial(n);
	for (int i = 2; i <= n; ++i) { real c = k == 0 ? ((2 * i - 1) * x * b - (i - 1) * a) / i : k < 3 ? 2 * x * b - a : k == 3 ? 2 * x * b - 2 * (i - 1) * a : ((2 * i - 1 - x) * b - (i - 1) * a) / i; a = b; b = c; } real s = 0, q = 1; for (int i = 0; i <= n; ++i) { s += m_(p[i]) * q; q *= x; } sym_check(p.size() == (size_t) n + 1, "degree"); sym_check(m_(p(x) - b) <= 1e-12 * s, "value");
}
