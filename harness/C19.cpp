// C19 first-order automatic differentiation: dual numbers
#include "sym.h"
#include <array>
#include "theoretica.h"
using namespace theoretica;
namespace th = theoretica;
static dual in(const char* p) { return dual(sym_real(nm(p, 0)), sym_real(nm(p, 1))); }
static void eq(const dual& d, real a, real b, const char* id) { sym_eq(d.Re(), a, id); sym_eq(d.Dual(), b, id); }
static void bad(const dual& d, int e, const char* id) { sym_check(sym_isnan(d.Re()) && sym_isnan(d.Dual()), id); sym_check(errno == e, id); }
HARNESS(ring, "t=60", "sum, difference, product and their compound forms, with duals and numbers on either side, every value") {
	dual x = in("x"), y = in("y"); real r = sym_real("r"), a = x.a, b = x.b, c = y.a, d = y.b;
	eq(x + y, a + c, b + d, "+"); eq(x - y, a - c, b - d, "-"); eq(x * y, a * c, a * d + b * c, "*"); eq(+x, a, b, "+x"); eq(-x, -a, -b, "-x"); eq(x + r, a + r, b, "x + r"); eq(x - r, a - r, b, "x - r"); eq(x * r, a * r, b * r, "x r"); eq(r + x, a + r, b, "r + x"); eq(r - x, r - a, -b, "r - x"); eq(r * x, a * r, b * r, "r x");
	dual z = x; z += y; eq(z, a + c, b + d, "+="); z = x; z -= y; eq(z, a - c, b - d, "-="); z = x; z *= y; eq(z, a * c, a * d + b * c, "*="); z = x; z *= z; eq(z, a * a, 2 * a * b, "*= itself"); z = x; z += r; eq(z, a + r, b, "+= r"); z = x; z -= r; eq(z, a - r, b, "-= r"); z = x; z *= r; eq(z, a * r, b * r, "*= r"); eq(x, a, b, "operand"); eq(y, c, d, "operand");
	eq(x.conjugate(), a, -b, "conjugate"); eq(conjugate(x), a, -b, "conjugate"); eq(square(x), a * a, 2 * a * b, "square"); eq(cube(x), a * a * a, 3 * a * a * b, "cube");
}
HARNESS(division, "t=60", "quotient, reciprocal and compound forms, every non-null divisor; null divisors are an error") {
	dual x = in("x"), y = in("y"); real r = sym_real("r"), a = x.a, b = x.b, c = y.a, d = y.b; errno = 0;
	if (c == 0) { bad(x / y, ERANGE, "x / 0"); errno = 0; bad(y.inverse(), ERANGE, "1 / 0"); errno = 0; bad(r / y, ERANGE, "r / 0"); dual z = x; errno = 0; z /= y; bad(z, ERANGE, "/= 0"); }
	else { eq(x / y, a / c, (b * c - a * d) / (c * c), "/"); eq(y.inverse(), 1 / c, -d / (c * c), "inverse"); eq(r / y, r / c, -r * d / (c * c), "r / y"); dual z = x; z /= y; eq(z, a / c, (b * c - a * d) / (c * c), "/="); z = y; z /= z; eq(z, 1, 0, "/= itself"); sym_check(errno == 0, "no error"); }
	errno = 0; if (r == 0) { bad(x / r, ERANGE, "/ 0"); dual z = x; errno = 0; z /= r; bad(z, ERANGE, "/= 0"); } else { eq(x / r, a / r, b / r, "/ r"); dual z = x; z /= r; eq(z, a / r, b / r, "/= r"); sym_check(errno == 0, "no error"); }
}
HARNESS(conversions, "t=60", "constructors, assignments, accessors, vector and matrix forms, comparison") {
	real a = sym_real("a"), b = sym_real("b"), c = sym_real("c"), d = sym_real("d"); dual x(a, b); eq(dual(), 0, 0, "default"); eq(dual(a), a, 0, "real"); vec2 v; v[0] = a; v[1] = b; eq(dual(v), a, b, "vector"); dual y(c, d); y = v; eq(y, a, b, "= vector"); y = dual(c, d); y = c; eq(y, c, 0, "= real"); std::array<real, 2> s = {a, b}; y = s; eq(y, a, b, "= array"); y = dual(c, d); y.from_vec(v); eq(y, a, b, "from_vec"); vec2 w = x.to_vec(); sym_eq(w[0], a, "to_vec"); sym_eq(w[1], b, "to_vec");
	mat2 m = x.to_mat(), n = dual(c, d).to_mat(), p = (x * dual(c, d)).to_mat(), q = m * n; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) sym_eq(p(i, j), q(i, j), "matrices multiply as the numbers"); sym_eq(m(0, 0), a, "to_mat"); sym_eq(m(0, 1), b, "to_mat"); sym_eq(m(1, 0), 0, "to_mat"); sym_eq(m(1, 1), a, "to_mat");
	const dual k = x; sym_eq(k.Re(), a, "Re"); sym_eq(k.Dual(), b, "Dual"); sym_eq(Re(k), a, "Re"); sym_eq(Dual(k), b, "Dual"); x.Re() = c; x.Dual() = d; eq(x, c, d, "write"); Re(x) = a; Dual(x) = b; eq(x, a, b, "write"); sym_check((x == dual(c, d)) == (a == c && b == d), "==");
}
HARNESS(powers, "t=60", "pow(dual, n), -4 <= n <= 9, every value (non-null for n < 0), and the square root") {
	dual x = in("x"); real a = x.a, b = x.b; int n = (int) sym_choose("n", -4, 9); if (n < 0) sym_assume(a != 0); real p = 1, q = 1; int m = n < 0 ? -n : n; for (int i = 0; i < m; ++i) { if (i) q *= a; p *= a; }
	dual r = pow(x, n); if (n > 0) eq(r, p, n * q * b, "pow"); else if (n == 0) eq(r, 1, 0, "pow 0"); else eq(r, 1 / p, n * b / (p * a), "negative power");
	if (n == 0) { errno = 0; dual s = sqrt(x); if (a > 0) { sym_eq(s.Re() * s.Re(), a, "sqrt"); sym_check(s.Re() > 0, "sqrt"); sym_eq(s.Dual() * 2 * s.Re(), b, "derivative of sqrt"); sym_check(errno == 0, "no error"); } else if (a == 0) bad(s, ERANGE, "sqrt(0)"); else { sym_check(sym_isnan(s.Re()) && sym_isnan(s.Dual()) && errno == EDOM, "sqrt of negatives"); } }
}
HARNESS(abs_value, "t=60", "abs: derivative is the sign, every value") { dual x = in("x"); real a = x.a, b = x.b; dual r = abs(x); if (a > 0) eq(r, a, b, "positive"); else if (a < 0) eq(r, -a, -b, "negative"); else sym_eq(r.Re(), 0, "zero"); }
HARNESS(trigonometric, "t=60", "sin, cos, tan, cot: value and derivative, every argument where they are defined") {
	dual x = in("x"); real a = x.a, b = x.b, s = sym_sin(a), c = sym_cos(a); eq(sin(x), s, c * b, "sin"); eq(cos(x), c, -s * b, "cos");
	int k = (int) sym_choose("sign", 0, 1); real g = k ? 1 : -1; if (sym_choose("f", 0, 1)) { sym_assume(c * g >= 1e-6); dual t = tan(x); sym_eq(t.Re() * c, s, "tan"); sym_eq(t.Dual() * c * c, b, "derivative of tan"); } else { sym_assume(s * g >= 1e-6); dual t = cot(x); sym_eq(t.Re() * s, c, "cot"); sym_eq(t.Dual() * s * s, -b, "derivative of cot"); }
}
HARNESS(exponential, "t=60", "exp, sinh, cosh, tanh: value and derivative, every argument") {
	dual x = in("x"); real a = x.a, b = x.b, e = sym_exp(a); sym_assume(e > 0); eq(exp(x), e, e * b, "exp"); real s = (e - 1 / e) / 2, c = (e + 1 / e) / 2; eq(sinh(x), s, c * b, "sinh"); eq(cosh(x), c, s * b, "cosh"); eq(tanh(x), s / c, b / (c * c), "tanh");
}
HARNESS(logarithms, "t=60", "ln, log2, log10: value and derivative on the domain, EDOM outside") {
	dual x(sym_real("a"), sym_real_in("b", -8, 8)); real a = x.a, b = x.b; errno = 0; if (a > 0) { eq(ln(x), sym_ln(a), b / a, "ln"); sym_assume(a >= 1e-9 && a <= 100); dual p = log2(x), q = log10(x); sym_near(p.Dual() * a, b * 1.4426950408889634, 1e-12, "derivative of log2"); sym_near(q.Dual() * a, b * 0.43429448190325183, 1e-12, "derivative of log10"); sym_eq(p.Re(), th::log2(a), "log2"); sym_eq(q.Re(), th::log10(a), "log10"); sym_check(errno == 0, "no error"); }
	else { bad(ln(x), EDOM, "ln"); errno = 0; bad(log2(x), EDOM, "log2"); errno = 0; bad(log10(x), EDOM, "log10"); }
}
HARNESS(arcs, "t=60", "asin, acos, atan: value and derivative inside the domain, EDOM outside it") {
	dual x = in("x"); real a = x.a, b = x.b; errno = 0; eq(atan(x), sym_atan(a), b / (1 + a * a), "atan"); if (a > -1 && a < 1) { dual s = asin(x), c = acos(x); sym_eq(s.Re(), th::asin(a), "asin"); sym_eq(c.Re(), th::acos(a), "acos"); real r = sym_sqrt(1 - a * a); sym_eq(s.Dual() * r, b, "derivative of asin"); sym_eq(c.Dual() * r, -b, "derivative of acos"); sym_check(errno == 0, "no error"); } else { bad(asin(x), EDOM, "asin"); errno = 0; bad(acos(x), EDOM, "acos"); }
}
HARNESS(chain, "t=60", "autodiff::deriv differentiates compositions: polynomials, quotients, products with exp, sin and sqrt; the returned operator agrees") {
	real x = sym_real("x"), p = sym_real("p"), q = sym_real("q"); auto f = [p, q](dual t) -> dual { dual u = t; u *= t; u += p; return u * t - q / (t * t + 1.0) + 2.0 * t; };
	real d = x * x + 1, e = 3 * x * x + p + 2 * q * x / (d * d) + 2; sym_eq(autodiff::deriv(f, x), e, "rational"); sym_eq(autodiff::deriv(f)(x), e, "operator");
	auto g = [p](dual t) -> dual { return exp(p * t) * sin(t * t); }; real ex = sym_exp(p * x), s = sym_sin(x * x), c = sym_cos(x * x); sym_eq(autodiff::deriv(g, x), ex * (p * s + 2 * x * c), "product and chain rule");
	auto h = [](dual t) -> dual { return sqrt(1.0 + t * t); }; sym_eq(autodiff::deriv(h, x) * sym_sqrt(1 + x * x), x, "square root");
}
static real ab_(real x) { return x < 0 ? -x : x; }
HARNESS(large_powers, "t=60", "pow(dual, n), n = 10..24, -5..-12 and +-{25, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128}, at six fixed values with any derivative") {
	static const real X[] = {1, -1, 2, -0.5, 1.5, -3}; static const int N[] = {25, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128}; int n = (int) sym_choose("n", -12, 46), c = (int) sym_choose("x", 0, 5); if (n > -5 && n < 10) return; if (n > 24) n = n < 36 ? N[n - 25] : -N[n - 36]; dual x(X[c], sym_real("b")); real a = x.a, p = 1; for (int i = 0; i < (n < 0 ? -n : n); ++i) p *= a; if (n < 0) p = 1 / p; real s = p < 0 ? -p : p; dual r = pow(x, n); sym_near(r.Re() / s, p / s, 1e-9, "value"); sym_near(r.Dual() / s, n * p / a * x.b / s, 1e-7 * ab_(x.b), "derivative");
}
HARNESS(exponential_range, "t=60 mode=fp libm", "exp, sinh, cosh, tanh at +-0.001 .. +-800 in floating point: the values agree with the real functions, the derivatives of sinh and cosh with cosh and sinh, tanh tends to +-1 with null derivative") {
	static const real X[] = {0.001, 0.5, 1, 5, 20, 37, 300, 600, 700, 800, 5000}; int c = (int) sym_choose("x", 0, 10), s = (int) sym_choose("s", 0, 1); real x = s ? X[c] : -X[c]; dual d(x, 3.0), t = tanh(d), h = sinh(d), k = cosh(d); real q = th::tanh(x); errno = 0;
	sym_check(t.Re() - q <= 1e-12 && q - t.Re() <= 1e-12, "tanh"); real ch = X[c] < 350 ? th::cosh(x) : 0, e = ch ? 3 / (ch * ch) : 0; sym_check(t.Dual() >= 0 && t.Dual() <= e * (1 + 1e-9) + 1e-200 && t.Dual() >= e * (1 - 1e-9) - 1e-200, "derivative of tanh");
	if (X[c] <= 700) { real a = th::sinh(x), b = th::cosh(x); sym_check(ab_(h.Re() - a) <= 1e-9 * ab_(a) && ab_(h.Dual() - 3 * b) <= 1e-9 * b && ab_(k.Re() - b) <= 1e-9 * b && ab_(k.Dual() - 3 * a) <= 1e-9 * ab_(a), "sinh and cosh"); }
	else sym_check(!sym_isnan(h.Re()) && !sym_isnan(h.Dual()) && !sym_isnan(k.Re()) && !sym_isnan(k.Dual()), "sinh and cosh overflow");
}
HARNESS(aliased, "t=60", "dual numbers combined in place with themselves or with their own parts") {
	dual x(sym_real("a"), sym_real("b")), z; real a = x.a, b = x.b; sym_assume(a > 1e-3 || a < -1e-3); z = x; z += z; eq(z, 2 * a, 2 * b, "+= self"); z = x; z -= z; eq(z, 0, 0, "-= self"); z = x; z /= z; eq(z, 1, 0, "/= self"); z = x; z *= z.a; eq(z, a * a, b * a, "*= part"); z = x; z /= z.a; eq(z, 1, b / a, "/= part"); z = x; z += z.a; eq(z, 2 * a, b, "+= part"); z = x; z = z; eq(z, a, b, "= self"); z = x; z = z * z - z; eq(z, a * a - a, 2 * a * b - b, "assigned");
}
