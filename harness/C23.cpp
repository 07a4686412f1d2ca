// C23 finite differences, polynomial derivatives, Taylor expansions
#include "sym.h"
#include <vector>
#include "theoretica.h"
using namespace theoretica;
namespace th = theoretica;
static real F(real x) { return sym_uf1("f", x); }
struct pol { int d; real c[20]; pol(int d_) : d(d_) { for (int i = 0; i <= d; ++i) c[i] = sym_real(nm("c", i)); } real operator()(real x) const { real r = 0; for (int i = d; i >= 0; --i) r = r * x + c[i]; return r; } real D(real x, int k) const { real r = 0; for (int i = d; i >= k; --i) { real m = 1; for (int j = 0; j < k; ++j) m *= i - j; r = r * x + m * c[i]; } return r; } };
HARNESS(stencils, "t=60", "central, forward, backward, Ridders-2 and second difference stencils of an arbitrary function, every point and non-null step") {
	real x = sym_real("x"), h = sym_real("h"); sym_assume(h != 0); sym_eq(deriv_central(F, x, h), (F(x + h) - F(x - h)) / (2 * h), "central"); sym_eq(deriv_forward(F, x, h), (F(x + h) - F(x)) / h, "forward"); sym_eq(deriv_backward(F, x, h), (F(x) - F(x - h)) / h, "backward"); real r = (8 * (F(x + h / 2) - F(x - h / 2)) - (F(x + h) - F(x - h))) / (6 * h); sym_eq(deriv_ridders2(F, x, h), r, "Ridders of second order"); sym_eq(th::deriv(F, x, h), r, "deriv"); sym_eq(th::deriv2(F, x, h), (F(x + h) - 2 * F(x) + F(x - h)) / (h * h), "second");
}
HARNESS(exactness, "t=60", "order of accuracy: forward and backward are exact on lines, central on parabolas, deriv2 on cubics, deriv and Ridders-2 on quartics, every point, step and coefficient") {
	real x = sym_real("x"), h = sym_real("h"); sym_assume(h != 0); { pol p(1); sym_eq(deriv_forward(p, x, h), p.D(x, 1), "forward"); sym_eq(deriv_backward(p, x, h), p.D(x, 1), "backward"); } { pol p(2); sym_eq(deriv_central(p, x, h), p.D(x, 1), "central"); } { pol p(3); sym_eq(th::deriv2(p, x, h), p.D(x, 2), "second"); } { pol p(4); sym_eq(deriv_ridders2(p, x, h), p.D(x, 1), "Ridders-2"); sym_eq(th::deriv(p, x, h), p.D(x, 1), "deriv"); }
}
HARNESS(defaults, "t=60", "the default steps keep the exactness of each formula") { real x = sym_real("x"); pol p(1), q(2), c(3), r(4); sym_eq(deriv_forward(p, x), p.D(x, 1), "forward"); sym_eq(deriv_backward(p, x), p.D(x, 1), "backward"); sym_eq(deriv_central(q, x), q.D(x, 1), "central"); sym_eq(th::deriv2(c, x), c.D(x, 2), "second"); sym_eq(th::deriv(r, x), r.D(x, 1), "deriv"); sym_eq(deriv_ridders(r, x), r.D(x, 1), "Ridders"); }
HARNESS(ridders, "t=60", "Ridders extrapolation of degree k is exact on polynomials of degree 2k, k = 1..4, every point and step; degree 0 is an error") {
	int k = (int) sym_choose("k", 0, 4); real x = sym_real("x"), h = sym_real("h"); sym_assume(h != 0); errno = 0; if (k == 0) { sym_check(sym_isnan(deriv_ridders(F, x, h, 0)) && errno == EINVAL, "degree 0"); return; } pol p(2 * k); sym_eq(deriv_ridders(p, x, h, k), p.D(x, 1), "polynomials"); if (k == 1) sym_eq(deriv_ridders(F, x, h, 1), deriv_central(F, x, h), "degree 1"); if (k == 2) sym_eq(deriv_ridders(F, x, h, 2), deriv_ridders2(F, x, h), "degree 2");
}
HARNESS(polynomials, "t=60", "derivative of every polynomial up to degree 5: coefficients and value at every point; the empty polynomial is an error") {
	int n = (int) sym_choose("n", 0, 6); polynomial<real> p; p.coeff.resize(n); for (int i = 0; i < n; ++i) p[i] = sym_real(nm("p", i)); real x = sym_real("x"), e = 0; for (int i = n - 1; i > 0; --i) e = e * x + i * p[i]; sym_eq(th::deriv(p, x), e, "value"); errno = 0; polynomial<real> d = th::deriv(p); if (n == 0) { sym_check(errno == EINVAL, "empty"); return; } sym_check(errno == 0, "no error"); if (n == 1) { sym_check(d.size() == 1, "constant"); sym_eq(d[0], 0, "constant"); } else { sym_check((int) d.size() == n - 1, "size"); for (int i = 1; i < n; ++i) sym_eq(d[i - 1], i * p[i], "coefficient"); sym_eq(d(x), e, "evaluation"); }
	polynomial<real> P = integral(p), q = th::deriv(P); for (int i = 0; i < n; ++i) sym_eq(q[i], p[i], "derivative of the integral");
}
static real A, B;
static dual fl(dual x) { return A * x * x * x + B / (1.0 + x * x); }
static dual2 fq(dual2 x) { return A * x * x * x + B / (1.0 + x * x); }
HARNESS(taylor_rational, "t=60", "linear and quadratic expansions of a x^3 + b/(1+x^2) about every point have the value and derivatives of the function there") {
	A = sym_real("a"); B = sym_real("b"); real x = sym_real("x"), y = sym_real("y"), d = 1 + x * x; polynomial<real> L = taylor::expand_linear(fl, x), Q = taylor::expand_quadratic(fq, x); real f0 = A * x * x * x + B / d, f1 = 3 * A * x * x - 2 * B * x / (d * d), f2 = 6 * A * x + B * (8 * x * x / (d * d * d) - 2 / (d * d)); real u = y - x; sym_check(L.size() == 2 && Q.size() == 3, "degree"); sym_eq(L(y), f0 + f1 * u, "linear"); sym_eq(Q(y), f0 + f1 * u + f2 * u * u / 2, "quadratic");
	polynomial<real> L0 = taylor::expand_linear(fl), Q0 = taylor::expand_quadratic(fq); sym_eq(L0(y), B, "about 0"); sym_eq(Q0(y), B - B * y * y, "about 0");
}
HARNESS(taylor_exact, "t=60", "the quadratic expansion of a parabola about any point is the parabola; the linear expansion of a line is the line; exp gives e^x (1 + u + u^2/2)") {
	real a = sym_real("a"), b = sym_real("b"), c = sym_real("c"), x = sym_real("x"), y = sym_real("y"); polynomial<real> Q = taylor::expand_quadratic([a, b, c](dual2 t) { return a * t * t + b * t + c; }, x), L = taylor::expand_linear([a, b](dual t) { return a * t + b; }, x); sym_eq(Q(y), a * y * y + b * y + c, "parabola"); sym_eq(L(y), a * y + b, "line"); real u = y - x; sym_eq(taylor::expand_quadratic([](dual2 t) { return th::exp(t); }, x)(y), sym_exp(x) * (1 + u + u * u / 2), "exp");
}
HARNESS(large_ridders, "t=60", "Ridders extrapolation of degree 5..12 is exact on polynomials of degree 10 at five points and two steps") {
	int k = (int) sym_choose("k", 5, 12), c = (int) sym_choose("x", 0, 4); real x = c * 0.75 - 1.5, h = sym_choose("h", 0, 1) ? 0.5 : -0.25; pol p(10); for (int i = 0; i <= 10; ++i) sym_assume(p.c[i] >= -1 && p.c[i] <= 1); sym_near(deriv_ridders(p, x, h, k), p.D(x, 1), 1e-4, "polynomials");
}
HARNESS(large_polynomials, "t=60", "derivatives of polynomials with 7..24 coefficients at five points, and of their integrals") {
	int n = (int) sym_choose("n", 7, 24), c = (int) sym_choose("x", 0, 4); polynomial<real> p; p.coeff.resize(n); for (int i = 0; i < n; ++i) p[i] = sym_real(nm("p", i)); real x = c * 0.75 - 1.5, e = 0; for (int i = n - 1; i > 0; --i) e = e * x + i * p[i]; sym_eq(th::deriv(p, x), e, "value"); polynomial<real> d = th::deriv(p), q = th::deriv(integral(p)); sym_check((int) d.size() == n - 1 && (int) q.size() == n, "size"); for (int i = 1; i < n; ++i) sym_eq(d[i - 1], i * p[i], "coefficient"); for (int i = 0; i < n; ++i) sym_eq(q[i], p[i], "integral");
}
HARNESS(ridders_order, "t=60", "Ridders extrapolation of degree 6..11 at three points and two steps is exact on each monomial of degree up to 2k") {
	int k = (int) sym_choose("k", 6, 11), c = (int) sym_choose("x", 0, 2); real x = c * 0.5 - 0.25, h = sym_choose("h", 0, 1) ? 1 : -0.75, a = sym_real_in("a", -1, 1), b = sym_real_in("b", -1, 1); auto pw = [](real t, int n) { real r = 1; while (n--) r *= t; return r; };
	for (int m = 2 * k - 5; m <= 2 * k - 1; m += 2) sym_near(deriv_ridders([=](real t) { return a * pw(t - x, m) + b * pw(t - x, m + 1) + a * (t - x); }, x, h, k), a, 1e-6, "monomial");
}
HARNESS(huge_polynomials, "t=60", "derivatives of polynomials with 129, 258 and 400 coefficients (one of eight arbitrary), coefficients and value") {
	static const int N[] = {129, 258, 400}; int n = N[sym_choose("n", 0, 2)], j = (int) sym_choose("j", 0, 7); polynomial<real> p; p.coeff.resize(n); int q = j < 7 ? 1 + j * (n - 2) / 7 : n - 1; real a = sym_real("a"), b = sym_real("b"); p[q] = a; p[1] = b; if (q == 1) a = b; polynomial<real> d = th::deriv(p); sym_check((int) d.size() == n - 1, "size"); for (int i = 1; i < n; ++i) sym_eq(d[i - 1], i == q ? i * a : i == 1 ? b : 0, "coefficient"); real x = sym_choose("x", 0, 1) ? 1 : -1; sym_eq(th::deriv(p, x), q == 1 ? b : b + q * a * (x > 0 || q % 2 ? 1 : -1), "value");
}
