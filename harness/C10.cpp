// C10 polynomial arithmetic
#include "sym.h"
#include <vector>
#include "theoretica.h"
using namespace theoretica;
namespace th = theoretica;
typedef polynomial<real> P;
static P pin(const char* n, int k) { P p; p.coeff.resize(k); for (int i = 0; i < k; ++i) p.coeff[i] = sym_real(nm(n, i)); return p; }
static real cf(const P& p, unsigned i) { return i < p.coeff.size() ? p.coeff[i] : 0.0; }
static real ev(const P& p, real x) { real s = 0, w = 1; for (unsigned i = 0; i < p.coeff.size(); ++i) { s += p.coeff[i] * w; w *= x; } return s; }
static void same(const P& p, const P& q, const char* id) { unsigned n = p.coeff.size() > q.coeff.size() ? p.coeff.size() : q.coeff.size(); for (unsigned i = 0; i < n; ++i) sym_eq(cf(p, i), cf(q, i), id); }
#ifdef THOROUGH
#define N 9
#else
#define N 6
#endif
HARNESS(eval, "t=60", "p(x) = sum c_i x^i for every x and coefficients, 0 to 12 coefficients; complex arguments") {
	int n = (int) sym_choose("n", 0, 12);
	P p = pin("p", n);
	real x = sym_real("x");
	sym_eq(p(x), ev(p, x), "()"); sym_eq(p.eval(x), ev(p, x), "eval");
	sym_check(p.size() == (size_t) n, "size");
	if (n <= 5) {
		complex<real> z(sym_real("za"), sym_real("zb")), s(0, 0), w(1, 0);
		for (int i = 0; i < n; ++i) { s.a += w.a * p.coeff[i]; s.b += w.b * p.coeff[i]; w = complex<real>(w.a * z.a - w.b * z.b, w.a * z.b + w.b * z.a); }
		complex<real> r = p.eval(z);
		sym_eq(r.a, s.a, "complex argument"); sym_eq(r.b, s.b, "complex argument");
	}
}
HARNESS(sum, "t=60", "p + q and p - q, all size combinations 0..5: coefficient-wise with missing coefficients zero") {
	int n = (int) sym_choose("n", 0, N - 1), m = (int) sym_choose("m", 0, N - 1);
	P p = pin("p", n), q = pin("q", m), p0 = p, q0 = q;
	P s = p + q, d = p - q;
	unsigned k = n > m ? n : m;
	sym_check(s.size() == k && d.size() == k, "size");
	for (unsigned i = 0; i < k; ++i) { sym_eq(cf(s, i), cf(p, i) + cf(q, i), "+"); sym_eq(cf(d, i), cf(p, i) - cf(q, i), "-"); }
	P t = p; t += q; same(t, s, "+="); t = p; t -= q; same(t, d, "-=");
	same(p, p0, "operand unchanged"); same(q, q0, "operand unchanged");
	t = p; t += t; for (int i = 0; i < n; ++i) sym_eq(cf(t, i), 2 * cf(p, i), "+= self");
	t = p; t -= t; for (int i = 0; i < n; ++i) sym_eq(cf(t, i), 0, "-= self");
}
HARNESS(product, "t=60", "p * q is the convolution, all size combinations 0..5 (and 1x9); compound and self forms") {
	int n = (int) sym_choose("n", 0, N), m = (int) sym_choose("m", 0, N);
	if (n == N) { n = 1; m = m + 4; }
	P p = pin("p", n), q = pin("q", m), r = p * q;
	std::vector<real> e(n + m + 1);
	for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) e[i + j] += p.coeff[i] * q.coeff[j];
	for (int i = 0; i < n + m; ++i) sym_eq(cf(r, i), e[i], "*");
	P t = p; t *= q; for (int i = 0; i < n + m; ++i) sym_eq(cf(t, i), e[i], "*=");
	if (n && m) sym_check(r.size() == (size_t)(n + m - 1), "size");
	if (n <= 3) { t = p; t *= t; P u = p * p; same(t, u, "*= self"); }
}
HARNESS(scalar, "t=60", "scalar multiples, quotients, sums and differences on both sides; division by zero") {
	int n = (int) sym_choose("n", 0, 5);
	P p = pin("p", n);
	real k = sym_real("k");
	P a = p * k, b = k * p;
	for (int i = 0; i < n; ++i) { sym_eq(cf(a, i), p.coeff[i] * k, "p*k"); sym_eq(cf(b, i), p.coeff[i] * k, "k*p"); }
	P t = p; t *= k; same(t, a, "*=");
	P s = k + p, d = k - p;
	sym_eq(cf(s, 0), cf(p, 0) + k, "k+p"); sym_eq(cf(d, 0), k - cf(p, 0), "k-p");
	for (int i = 1; i < n; ++i) { sym_eq(cf(s, i), p.coeff[i], "k+p"); sym_eq(cf(d, i), -p.coeff[i], "k-p"); }
	errno = 0;
	if (k >= MACH_EPSILON || k <= -MACH_EPSILON) {
		P q = p / k; for (int i = 0; i < n; ++i) sym_eq(cf(q, i), p.coeff[i] / k, "/");
		t = p; t /= k; for (int i = 0; i < n; ++i) sym_eq(cf(t, i), p.coeff[i] / k, "/=");
		sym_check(errno == 0, "no error");
	} else {
		P q = p / k; sym_check(errno == ERANGE && sym_isnan(q.coeff[0]), "/ 0");
		errno = 0; t = p; t /= k; sym_check(errno == ERANGE, "/= 0");
	}
}
HARNESS(order, "t=60", "find_order is the index of the last non-null coefficient; trim removes exactly the trailing null ones") {
	int n = (int) sym_choose("n", 0, 5);
	P p = pin("p", n);
	for (int i = 0; i < n; ++i) sym_assume(p.coeff[i] == 0 || p.coeff[i] >= 1e-9 || p.coeff[i] <= -1e-9);
	unsigned o = p.find_order();
	int last = -1;
	for (int i = 0; i < n; ++i) if (p.coeff[i] != 0) last = i;
	sym_check(o == (unsigned)(last < 0 ? 0 : last), "find_order");
	P t = p; t.trim();
	sym_check(t.size() == (size_t)(last + 1), "trim");
	for (int i = 0; i <= last; ++i) sym_eq(t.coeff[i], p.coeff[i], "trim keeps");
}
HARNESS(equality, "t=60 max_paths=4000", "== iff all coefficients agree within epsilon, missing ones counted as zero; sizes 0..3") {
	int n = (int) sym_choose("n", 0, 3), m = (int) sym_choose("m", 0, 3);
	P p = pin("p", n), q = pin("q", m);
	bool e = true;
	for (int i = 0; i < 3; ++i) { real d = cf(p, i) - cf(q, i); if (d >= MACH_EPSILON || d <= -MACH_EPSILON) e = false; }
	sym_check((p == q) == e, "==");
}
static void division(int n, int m) {
	P p = pin("p", n), d = pin("d", m);
	sym_assume((d.coeff[m - 1] >= 0.5 && d.coeff[m - 1] <= 1000) || (d.coeff[m - 1] <= -0.5 && d.coeff[m - 1] >= -1000));
	sym_assume(p.coeff[n - 1] >= 0.5 || p.coeff[n - 1] <= -0.5);
	errno = 0;
	P q = p / d;
	sym_check(errno == 0, "no error");
	P r = p - q * d; // remainder of degree < deg d
	for (unsigned i = 0; i < r.size(); ++i) if ((int) i >= m - 1) sym_near(r.coeff[i], 0, 1e-6, "p - q d has degree below d");
	sym_check((int) q.find_order() == (n >= m ? n - m : 0), "degree of the quotient");
}
HARNESS(division_11, "t=60", "polynomial division, constants by constants") { division(1, 1); }
HARNESS(division_31, "t=60", "polynomial division, degree 2 by 0") { division(3, 1); }
HARNESS(division_22, "t=60", "polynomial division, degree 1 by 1") { division(2, 2); }
HARNESS(division_32, "t=60", "polynomial division, degree 2 by 1") { division(3, 2); }
HARNESS(division_43, "t=60", "polynomial division, degree 3 by 2") { division(4, 3); }
HARNESS(division_23, "t=60", "polynomial division, lower degree dividend") { division(2, 3); }
HARNESS(division_42, "t=90", "polynomial division, degree 3 by 1") { division(4, 2); }
HARNESS(division_exact, "t=60", "(p d) / d = p for monic divisors, degrees up to 3 and 2") {
	int n = (int) sym_choose("n", 1, 4), m = (int) sym_choose("m", 1, 3);
	P p = pin("p", n), d = pin("d", m);
	d.coeff[m - 1] = 1;
	sym_assume(p.coeff[n - 1] >= 1);
	for (int i = 0; i < n - 1; ++i) sym_assume(p.coeff[i] >= 1);
	P q = (p * d) / d;
	same(q, p, "quotient");
	q = p * d; q /= d; same(q, p, "/=");
}
HARNESS(division_degenerate, "t=60", "division by the empty or zero polynomial reports ERANGE and NaN; empty dividend gives zero") {
	int n = (int) sym_choose("n", 0, 3), k = (int) sym_choose("zeros", 0, 3);
	P p = pin("p", n), d; d.coeff.resize(k);
	errno = 0;
	P q = p / d;
	sym_check(errno == ERANGE && sym_isnan(q.coeff[0]), "by zero");
	P e, one = {2, 1};
	errno = 0;
	q = e / one; sym_check(errno == 0, "empty"); for (unsigned i = 0; i < q.size(); ++i) sym_eq(q.coeff[i], 0, "empty");
}
HARNESS(calculus, "t=60", "deriv and integral are the term by term derivative and antiderivative (0 at 0), 0..8 coefficients, point and interval forms") {
	int n = (int) sym_choose("n", 0, 8);
	P p = pin("p", n);
	errno = 0;
	P d = deriv(p), q = integral(p);
	if (!n) sym_check(errno == EINVAL && sym_isnan(d.coeff[0]), "derivative of the empty polynomial");
	real x = sym_real("x"), a = sym_real("a"), b = sym_real("b");
	real dx = 0, ia = 0, ib = 0, w = 1, pa = a, pb = b;
	for (int i = 0; i < n; ++i) {
		sym_eq(cf(q, i + 1), p.coeff[i] / (i + 1), "integral");
		ia += p.coeff[i] / (i + 1) * pa; ib += p.coeff[i] / (i + 1) * pb; pa *= a; pb *= b;
		if (i) { sym_eq(cf(d, i - 1), i * p.coeff[i], "deriv"); dx += i * p.coeff[i] * w; w *= x; }
	}
	if (n) sym_eq(cf(d, n - 1), 0, "deriv degree");
	sym_eq(cf(q, 0), 0, "integral constant");
	if (n) sym_eq(deriv(p, x), dx, "deriv at a point");
	sym_eq(integral(p, a, b), ib - ia, "integral between bounds");
}
HARNESS(construct, "t=60", "constructors, access, monomials and products of roots") {
	real a = sym_real("a"), b = sym_real("b"), c = sym_real("c");
	P p = {a, b, c};
	sym_eq(p[0], a, "[]"); sym_eq(p.get(1), b, "get"); sym_eq(p.at(2), c, "at");
	p.at(1) = c; sym_eq(p.get(1), c, "at writes"); p[2] = a; sym_eq(p.get(2), a, "[] writes");
	sym_check(P().size() == 0, "empty"); sym_check(P(a).size() == 1, "constant"); sym_eq(P(a)[0], a, "constant");
	unsigned o = (unsigned) sym_choose("o", 0, 6);
	P m = P::monomial(b, o);
	sym_check(m.size() == o + 1, "monomial size");
	for (unsigned i = 0; i <= o; ++i) sym_eq(m[i], i == o ? b : 0.0, "monomial");
	std::vector<real> r;
	for (unsigned i = 0; i < o; ++i) r.push_back(sym_real(nm("r", i)));
	P f = P::from_roots(r);
	real x = sym_real("x"), e = 1;
	for (unsigned i = 0; i < o; ++i) e *= x - r[i];
	sym_eq(ev(f, x), e, "from_roots"); sym_eq(cf(f, o), 1, "monic");
	real s = 0; for (auto t : p) s += t; sym_eq(s, a + c + a, "iteration"); s = 0; for (auto t = p.cbegin(); t != p.cend(); ++t) s = s * 2 + *t; sym_eq(s, a * 4 + c * 2 + a, "constant iteration"); for (auto t = p.begin(); t != p.end(); ++t) *t = b; sym_eq(p[0] + p[1] * 2 + p[2] * 4, b * 7, "iteration writes");
}
HARNESS(quadratic, "t=90", "both quadratic roots satisfy the equation (sum -b/a, product c/a), real and complex cases, leading coefficient 1 or -2, others in [-4,4]") {
	real a = sym_choose("a", 0, 1) ? -2.0 : 1.0, b = sym_real_in("b", -4, 4), c = sym_real_in("c", -4, 4);
	sym_assume(c == 0 || c > 1e-3 || c < -1e-3);
	P p = {c, b, a};
	errno = 0;
	vec<complex<>, 2> z = p.quadratic_roots();
	sym_check(errno == 0, "no error");
	sym_near(z[0].a + z[1].a, -b / a, 1e-6, "sum"); sym_near(z[0].b + z[1].b, 0, 1e-6, "sum, imaginary");
	sym_near(z[0].a * z[1].a - z[0].b * z[1].b, c / a, 1e-6, "product"); sym_near(z[0].a * z[1].b + z[0].b * z[1].a, 0, 1e-6, "product, imaginary");
}
HARNESS(quadratic_degree, "t=30", "quadratic_roots of a polynomial of any other degree is NaN with an error") {
	int n = (int) sym_choose("n", 0, 5);
	if (n == 3) n = 2;
	P p = pin("p", n);
	if (n > 3) sym_assume(p.coeff[n - 1] >= 1);
	errno = 0;
	vec<complex<>, 2> z = p.quadratic_roots();
	sym_check(errno != 0 && sym_isnan(z[0].a) && sym_isnan(z[1].a), "error");
}
static const int BIG[] = {13, 17, 20, 33, 40};
HARNESS(large_eval, "t=60", "evaluation of 13, 17, 20, 33 and 40 symbolic coefficients at a real, derivative and integral coefficients, find_order and trim with trailing zeros") {
	int n = BIG[sym_choose("n", 0, 4)];
	P p = pin("p", n); sym_assume(p.coeff[n - 1] >= 1);
	static const real xs[] = {2.0, -1.0, 0.5, 0.0};
	real x = xs[sym_choose("x", 0, 3)];
	sym_eq(p(x), ev(p, x), "()"); sym_eq(p.eval(x), ev(p, x), "eval");
	P d = deriv(p), q = integral(p);
	for (int i = 0; i < n; ++i) { sym_eq(cf(q, i + 1), p.coeff[i] / (i + 1), "integral"); if (i) sym_eq(cf(d, i - 1), i * p.coeff[i], "deriv"); }
	sym_eq(cf(d, n - 1), 0, "deriv degree");
	P z = p; for (int i = 0; i < 7; ++i) z.coeff.push_back(0);
	sym_check(z.find_order() == (unsigned) n - 1, "order");
	z.trim(); sym_check(z.size() == (size_t) n, "trim"); same(z, p, "trim keeps");
	sym_check(z == p, "=="); z.coeff[n / 2] = z.coeff[n / 2] + 1; sym_check(!(z == p), "== sees every coefficient");
}
HARNESS(large_ring, "t=90", "sums, differences and products of 9x12, 16x17, 20x3 and 1x33 symbolic coefficients, all forms") {
	static const int A[] = {9, 16, 20, 1}, B[] = {12, 17, 3, 33};
	int c = (int) sym_choose("c", 0, 3), n = A[c], m = B[c], k = n > m ? n : m;
	P p = pin("p", n), q = pin("q", m), s = p + q, d = p - q, r = p * q, t = p;
	std::vector<real> e(n + m);
	for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) e[i + j] += p.coeff[i] * q.coeff[j];
	for (int i = 0; i < k; ++i) { sym_eq(cf(s, i), cf(p, i) + cf(q, i), "+"); sym_eq(cf(d, i), cf(p, i) - cf(q, i), "-"); }
	for (int i = 0; i < n + m; ++i) sym_eq(cf(r, i), e[i], "*");
	t *= q; same(t, r, "*="); t = p; t += q; same(t, s, "+="); t = p; t -= q; same(t, d, "-=");
	t = p * 3.0; for (int i = 0; i < n; ++i) sym_eq(cf(t, i), 3 * p.coeff[i], "p*k"); t /= 4.0; for (int i = 0; i < n; ++i) sym_eq(cf(t, i), 3 * p.coeff[i] / 4, "/k");
}
HARNESS(large_division, "t=90", "division of 8, 12 and 20 coefficients (two of them symbolic) by fixed divisors of degree 1, 2, 4 and 6: the remainder has lower degree") {
	static const int A[] = {8, 12, 20};
	static const real Q[4][7] = {{3, 2}, {-1, 1, 4}, {1, 0, 0, 2, 1}, {5, 0, 1, -2, 0, 1, 2}}; static const int M[] = {2, 3, 5, 7};
	int n = A[sym_choose("n", 0, 2)], c = (int) sym_choose("d", 0, 3), m = M[c];
	P d; for (int i = 0; i < m; ++i) d.coeff.push_back(Q[c][i]);
	P p; for (int i = 0; i < n; ++i) p.coeff.push_back(i == 1 || i == n / 3 ? sym_real(nm("p", i)) : 1 + (i * 7) % 5);
	errno = 0; P q = p / d; sym_check(errno == 0, "no error");
	for (int i = m - 1; i < n; ++i) { real s = cf(p, i); for (int j = 0; j < m && j <= i; ++j) s -= d.coeff[j] * cf(q, i - j); sym_near(s, 0, 1e-6, "p - q d has degree below d"); }
}
static real mag_(real x) { return x < 0 ? -x : x; }
HARNESS(small_coefficients, "mode=fp t=60", "coefficients down to 1e-14 are not null: order, trim, equality, division by and of small constants, remainders") {
	static const real S[] = {1e-14, 1e-12, 1e-9, 1e-7, 1e-5, 1e-2}; real s = S[sym_choose("s", 0, 5)]; if (sym_choose("g", 0, 1)) s = -s; P p({1, 2, s, 0}), q({1, 2, s}), r({1, 2}); sym_check(p.find_order() == 2, "order"); P t = p; t.trim(); sym_check(t.size() == 3 && t[2] == s, "trim"); sym_check(p == q && !(p == r) && !(q == r) && !(r == q), "equality"); sym_check(!(P({1, 2 + s, 3}) == P({1, 2, 3})) || mag_(s) < 1e-13, "equality of coefficients");
	errno = 0; P d = P({s}) / P({2}); sym_check(d.size() >= 1 && d[0] == s / 2 && errno == 0, "small dividend"); P e = P({1, 3, 2}) / P({s}); sym_check(errno == 0 && e.size() >= 3, "small divisor"); for (int i = 0; i < 3; ++i) sym_check(mag_(e[i] * s - (i == 0 ? 1 : i == 1 ? 3 : 2)) < 1e-9, "quotient"); P f = P({2, 4, 6}) / s, g({2, 4, 6}); g /= s; for (int i = 0; i < 3; ++i) sym_check(mag_(f[i] * s - 2 * (i + 1)) < 1e-9 && mag_(g[i] * s - 2 * (i + 1)) < 1e-9, "scalar quotient"); sym_check(errno == 0, "no error");
}
HARNESS(quadratic_scales, "mode=fp t=60", "roots of quadratics built from two roots of magnitudes 1e-7 to 1e6 (real, of any signs, or a conjugate pair), with leading coefficients 1e-3 to 1e3") {
	static const real R[] = {1e-7, 1e-5, 1e-3, 0.5, 3, 1000, 1e6}, K[] = {1, -1e-3, 1e3}; real a = R[sym_choose("a", 0, 6)], b = R[sym_choose("b", 0, 6)], k = K[sym_choose("k", 0, 2)]; int g = (int) sym_choose("g", 0, 4); if (g & 1) a = -a; if (g == 2 || g == 3) b = -b; if (a == b) b *= 2; errno = 0;
	if (g < 4) { if (mag_(a * b) < 1e-14) return; P p({k * a * b, -k * (a + b), k}); auto z = p.quadratic_roots(); bool o = mag_(z[0].a - a) < mag_(z[1].a - a); real u = z[o ? 0 : 1].a, v = z[o ? 1 : 0].a; sym_check(mag_(u - a) <= 1e-7 * mag_(a) + 1e-14 && mag_(v - b) <= 1e-7 * mag_(b) + 1e-14, "real roots"); sym_check(mag_(z[0].b) <= 1e-7 * (mag_(a) < mag_(b) ? mag_(a) : mag_(b)) && mag_(z[1].b) <= 1e-7 * (mag_(a) < mag_(b) ? mag_(a) : mag_(b)), "real"); }
	else { if (mag_(b) < 1e-5 * mag_(a)) return; P p({k * (a * a + b * b), -2 * k * a, k}); if (a * a + b * b < 1e-14) return; auto z = p.quadratic_roots(); for (int i = 0; i < 2; ++i) { real w = i == 0 ? z[0].b : -z[0].b, y = i == 0 ? z[0].a : z[1].a; sym_check(mag_(y - a) <= 1e-6 * (mag_(a) + mag_(b)), "real part"); (void) w; } sym_check(mag_(mag_(z[0].b) - b) <= 1e-4 * (a + b) && mag_(z[0].b + z[1].b) <= 1e-6 * (a + b), "imaginary part"); }
	sym_check(errno == 0, "no error");
}
HARNESS(aliased, "t=60", "polynomials combined in place with themselves or with one of their own coefficients, 1..4 coefficients") {
	int n = (int) sym_choose("n", 1, 4), k = (int) sym_choose("k", 0, 3); if (k >= n) return; P p; p.coeff.resize(n); for (int i = 0; i < n; ++i) p[i] = sym_real(nm("p", i)); real s = p[k], l = p[n - 1]; sym_assume(s > 1e-3 || s < -1e-3); sym_assume(l > 1e-3 || l < -1e-3); P t = p; t *= t[k]; for (int i = 0; i < n; ++i) sym_eq(cf(t, i), p[i] * s, "*= coefficient"); t = p; t /= t[k]; for (int i = 0; i < n; ++i) sym_eq(cf(t, i) * s, p[i], "/= coefficient"); t = p; t += t; for (int i = 0; i < n; ++i) sym_eq(cf(t, i), 2 * p[i], "+= self"); t = p; t -= t; for (int i = 0; i < n; ++i) sym_eq(cf(t, i), 0, "-= self"); t = p; t *= t; for (int i = 0; i < 2 * n - 1; ++i) { real e = 0; for (int j = 0; j <= i; ++j) if (j < n && i - j < n) e += p[j] * p[i - j]; sym_eq(cf(t, i), e, "*= self"); } t = p; t = t; for (int i = 0; i < n; ++i) sym_eq(cf(t, i), p[i], "= self");
	if (n <= 2) { errno = 0; t = p; t /= t; sym_check(errno == 0, "/= self"); sym_eq(cf(t, 0), 1, "/= self"); for (unsigned i = 1; i < t.size(); ++i) sym_eq(t[i], 0, "/= self"); }
}
HARNESS(roots_scales, "mode=fp t=60", "the polynomial with two or three given roots of magnitudes 1e-30 to 1e30 has the elementary symmetric functions for coefficients, to a relative 1e-14") {
	static const real S[] = {1e-30, -1e-18, 3e-9, -0.5, 7, 2e12, -1e30}; real a = S[sym_choose("a", 0, 6)], b = S[sym_choose("b", 0, 6)]; bool three = sym_choose("n", 0, 1);
	std::vector<real> r = {a, b}; if (three) r.push_back(2);
	polynomial<real> p = polynomial<real>::from_roots(r); sym_check(p.size() == r.size() + 1, "size"); if (p.size() != r.size() + 1) return;
	real w[4] = {a * b, -(a + b), 1, 0}; if (three) { w[3] = 1; w[2] = -(a + b) - 2; w[1] = a * b + 2 * (a + b); w[0] = -2 * (a * b); }
	for (unsigned i = 0; i < p.size(); ++i) { real d = p[i] - w[i]; if (d < 0) d = -d; real m = w[i] < 0 ? -w[i] : w[i]; sym_check(d <= 1e-14 * m, "coefficient"); }
}
HARNESS(ring_scales, "mode=fp t=60", "sums, differences, products and evaluations keep coefficients of magnitudes 1e-30 to 1e30, in both forms, to a relative 1e-14") {
	static const real S[] = {1e-30, -1e-17, 3e-9, -0.5, 7, 2e12, -1e25}; real a = S[sym_choose("a", 0, 6)], b = S[sym_choose("b", 0, 6)], c = S[sym_choose("c", 0, 6)];
	auto ok = [](real v, real w) { real d = v - w, m = w < 0 ? -w : w; return (d < 0 ? -d : d) <= 1e-14 * m; };
	polynomial<real> p({1.5, a}), q({b, c}); const real w[3] = {1.5 * b, 1.5 * c + a * b, a * c};
	polynomial<real> t = p; t *= q;
	for (int f = 0; f < 2; ++f) { polynomial<real> r = f ? t : p * q; sym_check(r.size() == 3, "size"); if (r.size() != 3) return; sym_check(ok(r[0], w[0]) && (ok(r[1], w[1]) || (1.5 * c > 0) != (a * b > 0)) && ok(r[2], w[2]), "product"); }
	t = p; t += q; polynomial<real> u = p + q, v = p - q, x = p; x -= q;
	sym_check(u.size() == 2 && t.size() == 2 && v.size() == 2 && x.size() == 2, "sizes"); if (u.size() != 2 || t.size() != 2 || v.size() != 2 || x.size() != 2) return;
	sym_check(u[0] == 1.5 + b && u[1] == a + c && t[0] == 1.5 + b && t[1] == a + c, "sum"); sym_check(v[0] == 1.5 - b && v[1] == a - c && x[0] == 1.5 - b && x[1] == a - c, "difference");
	polynomial<real> e({0, a, 0}); sym_check(ok(e(c), a * c), "evaluation"); polynomial<real> k = e * c, l = e; l *= c; sym_check(ok(k[1], a * c) && ok(l[1], a * c), "scaled"); k = e / c; l = e; l /= c; if (c * c > 1e-30) sym_check(ok(k[1], a / c) && ok(l[1], a / c), "divided");
	polynomial<real> D = deriv(polynomial<real>({b, a, c})); sym_check(D.size() == 2 && ok(D[0], a) && ok(D[1], 2 * c), "derivative");
}
HARNESS(complex_ring, "t=60", "polynomials of complex coefficients: sums, differences, products, multiples in all forms, evaluation, calculus, products of roots; 1..3 by 1..2 coefficients, every value") {
	typedef complex<real> cx; typedef polynomial<cx> P; int n = (int) sym_choose("n", 1, 3), m = (int) sym_choose("m", 1, 2), mx = n > m ? n : m;
	std::vector<cx> a, b; for (int i = 0; i < n; ++i) a.push_back(cx(sym_real(nm("a", i)), sym_real(nm("b", i)))); for (int i = 0; i < m; ++i) b.push_back(cx(sym_real(nm("c", i)), sym_real(nm("d", i))));
	cx k(sym_real("k"), sym_real("l")), z(sym_real("x"), sym_real("y")); const P p(a), q(b);
	auto mul = [](const cx& u, const cx& v) { cx w; w.a = u.a * v.a - u.b * v.b; w.b = u.a * v.b + u.b * v.a; return w; }; auto eq = [](const cx& u, const cx& v, const char* id) { sym_eq(u.a, v.a, id); sym_eq(u.b, v.b, id); };
	auto at = [](const std::vector<cx>& v, int i) { return i < (int) v.size() ? v[i] : cx(0, 0); };
	P s = p + q, d = p - q, r = p * q, t = p, u = p, w = p, e = p, f = p * k, g = k * p, h = k - p, o = k + p;
	t += q; u -= q; w *= q; e *= k;
	sym_check((int) s.size() == mx && (int) d.size() == mx && (int) t.size() == mx && (int) u.size() == mx && (int) r.size() == n + m - 1 && (int) w.size() == n + m - 1 && (int) e.size() == n && (int) f.size() == n, "sizes");
	if ((int) s.size() != mx || (int) d.size() != mx || (int) t.size() != mx || (int) u.size() != mx || (int) r.size() != n + m - 1 || (int) w.size() != n + m - 1 || (int) e.size() != n || (int) f.size() != n) return;
	for (int i = 0; i < mx; ++i) { cx x = at(a, i), y = at(b, i), S(x.a + y.a, x.b + y.b), D(x.a - y.a, x.b - y.b); eq(s[i], S, "+"); eq(t[i], S, "+="); eq(d[i], D, "-"); eq(u[i], D, "-="); }
	for (int i = 0; i < n + m - 1; ++i) { cx S(0, 0); for (int j = 0; j <= i; ++j) { cx v = mul(at(a, j), at(b, i - j)); S.a += v.a; S.b += v.b; } eq(r[i], S, "*"); eq(w[i], S, "*="); }
	for (int i = 0; i < n; ++i) { cx v = mul(a[i], k); eq(e[i], v, "*= k"); eq(f[i], v, "* k"); eq(g[i], v, "k *"); eq(h[i], cx((i ? 0 : k.a) - a[i].a, (i ? 0 : k.b) - a[i].b), "k -"); eq(o[i], cx((i ? 0 : k.a) + a[i].a, (i ? 0 : k.b) + a[i].b), "k +"); }
	cx v(0, 0), zp(1, 0); for (int i = 0; i < n; ++i) { cx y = mul(a[i], zp); v.a += y.a; v.b += y.b; zp = mul(zp, z); } eq(p(z), v, "evaluation");
	P D = deriv(p), J = integral(p); for (int i = 1; i < n; ++i) eq(D[i - 1], cx(a[i].a * i, a[i].b * i), "derivative"); for (int i = 0; i < n; ++i) { sym_eq(J[i + 1].a * (i + 1), a[i].a, "integral"); sym_eq(J[i + 1].b * (i + 1), a[i].b, "integral"); }
	P R = P::from_roots({k, z}); sym_check(R.size() == 3, "roots"); if (R.size() == 3) { eq(R[0], mul(k, z), "roots"); eq(R[1], cx(-k.a - z.a, -k.b - z.b), "roots"); eq(R[2], cx(1, 0), "roots"); }
}
