// C20 second-order and multivariate automatic differentiation numbers
#include "sym.h"
#include <array>
#include "theoretica.h"
using namespace theoretica;
namespace th = theoretica;
static dual2 in(const char* p) { return dual2(sym_real(nm(p, 0)), sym_real(nm(p, 1)), sym_real(nm(p, 2))); }
static void eq(const dual2& d, real a, real b, real c, const char* id) { sym_eq(d.Re(), a, id); sym_eq(d.Dual1(), b, id); sym_eq(d.Dual2(), c, id); }
static void bad(const dual2& d, int e, const char* id) { sym_check(sym_isnan(d.Re()) && sym_isnan(d.Dual1()) && sym_isnan(d.Dual2()), id); sym_check(errno == e, id); }
// f(g)'' = f''(g) g'^2 + f'(g) g''
static void chain(const dual2& r, const dual2& x, real f, real df, real ddf, const char* id) { eq(r, f, df * x.b, ddf * x.b * x.b + df * x.c, id); }
HARNESS(d2_ring, "t=60", "dual2: sum, difference, product and compound forms, with dual2 and numbers on either side, every value") {
	dual2 x = in("x"), y = in("y"); real r = sym_real("r"), a = x.a, b = x.b, c = x.c, p = y.a, q = y.b, s = y.c;
	eq(x + y, a + p, b + q, c + s, "+"); eq(x - y, a - p, b - q, c - s, "-"); eq(x * y, a * p, a * q + b * p, a * s + 2 * b * q + c * p, "*"); eq(+x, a, b, c, "+x"); eq(-x, -a, -b, -c, "-x"); eq(x + r, a + r, b, c, "x + r"); eq(x - r, a - r, b, c, "x - r"); eq(x * r, a * r, b * r, c * r, "x r"); eq(r + x, a + r, b, c, "r + x"); eq(r - x, r - a, -b, -c, "r - x"); eq(r * x, a * r, b * r, c * r, "r x");
	dual2 z = x; z += y; eq(z, a + p, b + q, c + s, "+="); z = x; z -= y; eq(z, a - p, b - q, c - s, "-="); z = x; z *= y; eq(z, a * p, a * q + b * p, a * s + 2 * b * q + c * p, "*="); z = x; z *= z; eq(z, a * a, 2 * a * b, 2 * a * c + 2 * b * b, "*= itself"); z = x; z += r; eq(z, a + r, b, c, "+= r"); z = x; z -= r; eq(z, a - r, b, c, "-= r"); z = x; z *= r; eq(z, a * r, b * r, c * r, "*= r");
	chain(square(x), x, a * a, 2 * a, 2, "square"); chain(cube(x), x, a * a * a, 3 * a * a, 6 * a, "cube"); eq(conjugate(x), a, -b, -c, "conjugate"); eq(x, a, b, c, "operand");
}
HARNESS(d2_division, "t=60", "dual2: quotient, reciprocal and compound forms, every non-null divisor; null divisors are an error") {
	dual2 x = in("x"), y = in("y"); real r = sym_real("r"); errno = 0;
	if (y.a == 0) { bad(x / y, ERANGE, "x / 0"); errno = 0; bad(y.inverse(), ERANGE, "1 / 0"); errno = 0; bad(r / y, ERANGE, "r / 0"); dual2 z = x; errno = 0; z /= y; bad(z, ERANGE, "/= 0"); }
	else { dual2 q = x / y, b = q * y; eq(b, x.a, x.b, x.c, "quotient times divisor"); real u = y.a; chain(y.inverse(), y, 1 / u, -1 / (u * u), 2 / (u * u * u), "inverse"); b = (r / y) * y; eq(b, r, 0, 0, "r / y"); dual2 z = x; z /= y; eq(z, q.a, q.b, q.c, "/="); z = y; z /= z; eq(z, 1, 0, 0, "/= itself"); sym_check(errno == 0, "no error"); }
	errno = 0; if (r == 0) { bad(x / r, ERANGE, "/ 0"); dual2 z = x; errno = 0; z /= r; bad(z, ERANGE, "/= 0"); } else { eq(x / r, x.a / r, x.b / r, x.c / r, "/ r"); dual2 z = x; z /= r; eq(z, x.a / r, x.b / r, x.c / r, "/= r"); sym_check(errno == 0, "no error"); }
}
HARNESS(d2_conversions, "t=60", "dual2: constructors, assignments, vector form, comparison") {
	real a = sym_real("a"), b = sym_real("b"), c = sym_real("c"); dual2 x(a, b, c), y = in("y"), o = y; eq(dual2(), 0, 0, 0, "default"); eq(dual2(a), a, 0, 0, "real"); eq(dual2(a, b), a, b, 0, "two"); vec3 v; v[0] = a; v[1] = b; v[2] = c; eq(dual2(v), a, b, c, "vector"); y = v; eq(y, a, b, c, "= vector"); y = o; y = a; eq(y, a, 0, 0, "= real"); std::array<real, 3> s = {a, b, c}; y = s; eq(y, a, b, c, "= array"); y = o; y.from_vec(v); eq(y, a, b, c, "from_vec"); vec3 w = x.to_vec(); sym_eq(w[0], a, "to_vec"); sym_eq(w[1], b, "to_vec"); sym_eq(w[2], c, "to_vec"); sym_check((x == o) == (a == o.a && b == o.b && c == o.c), "==");
}
HARNESS(d2_powers, "t=60", "dual2: pow(x, n), -3 <= n <= 7, every value (non-null for n < 0), square root, absolute value") {
	dual2 x = in("x"); real a = x.a; int n = (int) sym_choose("n", -3, 7); if (n < 0) sym_assume(a != 0); real p = 1; for (int i = 0; i < (n < 0 ? -n : n); ++i) p *= a; dual2 r = pow(x, n);
	if (n >= 2) { real q = 1; for (int i = 0; i < n - 2; ++i) q *= a; chain(r, x, p, n * q * a, n * (n - 1) * q, "pow"); } else if (n == 1) eq(r, a, x.b, x.c, "pow 1"); else if (n == 0) eq(r, 1, 0, 0, "pow 0"); else chain(r, x, 1 / p, n / (p * a), n * (n - 1) / (p * a * a), "negative power");
	if (n == 0) { errno = 0; dual2 s = sqrt(x); if (a > 0) { real t = sym_sqrt(a); chain(s, x, t, 1 / (2 * t), -1 / (4 * a * t), "sqrt"); sym_check(errno == 0, "no error"); } else bad(s, a == 0 ? ERANGE : EDOM, "sqrt outside"); }
	if (n == 1) { dual2 s = abs(x); if (a > 0) eq(s, a, x.b, x.c, "abs"); else if (a < 0) eq(s, -a, -x.b, -x.c, "abs"); else sym_eq(s.Re(), 0, "abs 0"); }
}
HARNESS(d2_trigonometric, "t=60", "dual2: sin, cos, tan, cot: value, first and second derivative") {
	dual2 x = in("x"); real s = sym_sin(x.a), c = sym_cos(x.a); chain(sin(x), x, s, c, -s, "sin"); chain(cos(x), x, c, -s, -c, "cos"); real g = sym_choose("sign", 0, 1) ? 1 : -1;
	if (sym_choose("f", 0, 1)) { sym_assume(c * g >= 1e-9); dual2 t = tan(x); sym_eq(t.a * c, s, "tan"); sym_eq(t.b * c * c, x.b, "tan'"); sym_eq(t.c * c * c * c, 2 * s * x.b * x.b + c * x.c, "tan''"); } else { sym_assume(s * g >= 1e-9); dual2 t = cot(x); sym_eq(t.a * s, c, "cot"); sym_eq(t.b * s * s, -x.b, "cot'"); sym_eq(t.c * s * s * s, 2 * c * x.b * x.b - s * x.c, "cot''"); }
}
HARNESS(d2_exponential, "t=60", "dual2: exp, ln, log2, log10: value and derivatives on the domain, EDOM outside") {
	dual2 x(sym_real("a"), sym_real_in("b", -4, 4), sym_real_in("c", -4, 4)); real a = x.a, e = sym_exp(a); chain(exp(x), x, e, e, e, "exp"); errno = 0;
	if (a > 0) { chain(ln(x), x, sym_ln(a), 1 / a, -1 / (a * a), "ln"); sym_assume(a >= 1e-9 && a <= 10); dual2 l = ln(x), p = log2(x), q = log10(x); sym_eq(p.a, th::log2(a), "log2"); sym_eq(q.a, th::log10(a), "log10"); real k = 1.4426950408889634, h = 0.43429448190325183; sym_near(p.b * a, k * x.b, 1e-12, "log2'"); sym_near(q.b * a, h * x.b, 1e-12, "log10'"); sym_near(p.c * a * a, k * (x.c * a - x.b * x.b), 1e-12, "log2''"); sym_near(q.c * a * a, h * (x.c * a - x.b * x.b), 1e-12, "log10''"); sym_check(errno == 0, "no error"); }
	else { bad(ln(x), EDOM, "ln"); errno = 0; bad(log2(x), EDOM, "log2"); errno = 0; bad(log10(x), EDOM, "log10"); }
}
HARNESS(d2_arcs, "t=60", "dual2: asin, acos, atan: value and derivatives inside the domain, EDOM outside it") {
	dual2 x = in("x"); real a = x.a, d = 1 + a * a; errno = 0; chain(atan(x), x, sym_atan(a), 1 / d, -2 * a / (d * d), "atan");
	if (a > -1 && a < 1) { dual2 s = asin(x), c = acos(x); real r = sym_sqrt(1 - a * a); chain(s, x, th::asin(a), 1 / r, a / ((1 - a * a) * r), "asin"); chain(c, x, th::acos(a), -1 / r, -a / ((1 - a * a) * r), "acos"); sym_check(errno == 0, "no error"); } else { bad(asin(x), EDOM, "asin"); errno = 0; bad(acos(x), EDOM, "acos"); }
}
HARNESS(d2_deriv2, "t=60", "autodiff::deriv2 is the second derivative of compositions; the returned operator agrees") {
	real x = sym_real("x"), p = sym_real("p"); auto f = [p](dual2 t) -> dual2 { dual2 u = t * t + p; u *= t; return u - 1.0 / (t * t + 1.0); }; real d = x * x + 1; real e = 6 * x + 2 / (d * d) - 8 * x * x / (d * d * d); sym_eq(autodiff::deriv2(f, x), e, "rational"); sym_eq(autodiff::deriv2(f)(x), e, "operator");
	auto g = [p](dual2 t) -> dual2 { return exp(p * t) * sin(t * t); }; real ex = sym_exp(p * x), s = sym_sin(x * x), c = sym_cos(x * x); sym_eq(autodiff::deriv2(g, x), ex * (p * p * s + 4 * p * x * c + 2 * c - 4 * x * x * s), "product and chain rule");
}
template<unsigned N> static multidual<N> min_(const char* p, int n) { vec<real, N> v; v.resize(n); for (int i = 0; i < n; ++i) v[i] = sym_real(nm(p, i + 1)); return multidual<N>(sym_real(nm(p, 0)), v); }
// r == f + sum of (df * x_i + dg * y_i) e_i
template<unsigned N> static void lin(const multidual<N>& r, real f, real df, const multidual<N>& x, real dg, const multidual<N>& y, const char* id) { sym_check(r.size() == x.size(), id); if (r.size() != x.size()) return; sym_eq(r.Re(), f, id); vec<real, N> u = r.Dual(), v = x.Dual(), w = y.Dual(); for (unsigned i = 0; i < x.size(); ++i) sym_eq(u[i], df * v[i] + dg * w[i], id); }
template<unsigned N> static void one(const multidual<N>& r, real f, real df, const multidual<N>& x, const char* id) { lin<N>(r, f, df, x, 0, x, id); }
template<unsigned N> static void mbad(const multidual<N>& r, unsigned n, int e, const char* id) { sym_check(errno == e, id); sym_check(sym_isnan(r.Re()) && r.size() == n, id); if (r.size() == n) for (unsigned i = 0; i < n; ++i) sym_check(sym_isnan(r.Dual()[i]), id); }
template<unsigned N> static void ring(int n) {
	typedef multidual<N> M; M x = min_<N>("x", n), y = min_<N>("y", n), o = x; real r = sym_real("r"), a = x.a, c = y.a; sym_assume(r == 0 || r >= 1e-9 || r <= -1e-9); sym_assume(c == 0 || c >= 1e-9 || c <= -1e-9);
	lin<N>(x + y, a + c, 1, x, 1, y, "+"); lin<N>(x - y, a - c, 1, x, -1, y, "-"); lin<N>(x * y, a * c, c, x, a, y, "*"); one<N>(+x, a, 1, x, "+x"); one<N>(-x, -a, -1, x, "-x"); one<N>(x + r, a + r, 1, x, "x + r"); one<N>(x - r, a - r, 1, x, "x - r"); one<N>(x * r, a * r, r, x, "x r"); one<N>(r + x, a + r, 1, x, "r + x"); one<N>(r - x, r - a, -1, x, "r - x"); one<N>(r * x, r * a, r, x, "r x");
	M z = x; z += y; lin<N>(z, a + c, 1, x, 1, y, "+="); z = x; z -= y; lin<N>(z, a - c, 1, x, -1, y, "-="); z = x; z *= y; lin<N>(z, a * c, c, x, a, y, "*="); z = x; z += r; one<N>(z, a + r, 1, x, "+= r"); z = x; z -= r; one<N>(z, a - r, 1, x, "-= r"); z = x; z *= r; one<N>(z, a * r, r, x, "*= r"); z = x; z *= z; one<N>(z, a * a, 2 * a, x, "*= itself");
	one<N>(x.conjugate(), a, -1, x, "conjugate"); one<N>(square(x), a * a, 2 * a, x, "square"); one<N>(cube(x), a * a * a, 3 * a * a, x, "cube"); one<N>(x, o.a, 1, o, "operand"); errno = 0;
	if (c == 0) { mbad<N>(x / y, n, ERANGE, "x / 0"); errno = 0; mbad<N>(y.inverse(), n, ERANGE, "1 / 0"); errno = 0; mbad<N>(r / y, n, ERANGE, "r / 0"); z = x; errno = 0; z /= y; mbad<N>(z, n, ERANGE, "/= 0"); } else { lin<N>(x / y, a / c, 1 / c, x, -a / (c * c), y, "/"); z = x; z /= y; lin<N>(z, a / c, 1 / c, x, -a / (c * c), y, "/="); one<N>(y.inverse(), 1 / c, -1 / (c * c), y, "inverse"); one<N>(r / y, r / c, -r / (c * c), y, "r / y"); sym_check(errno == 0, "no error"); }
	errno = 0; if (r == 0) { mbad<N>(x / r, n, ERANGE, "/ 0"); errno = 0; z = x; z /= r; mbad<N>(z, n, ERANGE, "/= 0"); } else { one<N>(x / r, a / r, 1 / r, x, "/ r"); z = x; z /= r; one<N>(z, a / r, 1 / r, x, "/= r"); sym_check(errno == 0, "no error"); }
}
HARNESS(m_fixed, "t=60", "multidual of fixed size 3: every operation in every form, every value; null divisors are an error") { ring<3>(3); }
HARNESS(m_dynamic, "t=60", "multidual of dynamic size 2: every operation in every form, every value; null divisors are an error") { ring<0>(2); }
template<unsigned N> static void funcs(int n, int k) {
	typedef multidual<N> M; M x = min_<N>("x", n); real a = x.a; errno = 0;
	if (k == 0) { one<N>(pow(x, 3), a * a * a, 3 * a * a, x, "pow 3"); one<N>(pow(x, 1), a, 1, x, "pow 1"); one<N>(pow(x, 0), 1, 0, x, "pow 0"); if (a != 0) one<N>(pow(x, -2), 1 / (a * a), -2 / (a * a * a), x, "pow -2"); M s = abs(x); if (a > 0) one<N>(s, a, 1, x, "abs"); else if (a < 0) one<N>(s, -a, -1, x, "abs"); }
	if (k == 1) { M s = sqrt(x); if (a > 0) { real t = sym_sqrt(a); one<N>(s, t, 0.5 / t, x, "sqrt"); } else if (a == 0) mbad<N>(s, n, ERANGE, "sqrt 0"); else sym_check(sym_isnan(s.Re()) && errno == EDOM, "sqrt of negatives"); }
	if (k == 2) { real s = sym_sin(a), c = sym_cos(a); one<N>(sin(x), s, c, x, "sin"); one<N>(cos(x), c, -s, x, "cos"); { int g = (int) sym_choose("quadrant", 0, 3); real cs = g & 1 ? c : -c, ss = g & 2 ? s : -s; sym_assume(cs >= 1e-6 && ss >= 1e-6); } one<N>(tan(x), s / c, 1 / (c * c), x, "tan"); one<N>(cot(x), c / s, -1 / (s * s), x, "cot"); }
	if (k == 3) { real e = sym_exp(a); sym_assume(e > 0); one<N>(exp(x), e, e, x, "exp"); real s = (e - 1 / e) / 2, c = (e + 1 / e) / 2; one<N>(sinh(x), s, c, x, "sinh"); one<N>(cosh(x), c, s, x, "cosh"); one<N>(tanh(x), s / c, 1 / (c * c), x, "tanh"); }
	if (k == 4) { if (a > 0) { one<N>(ln(x), sym_ln(a), 1 / a, x, "ln"); one<N>(log2(x), th::log2(a), LOG2E / a, x, "log2"); one<N>(log10(x), th::log10(a), LOG10E / a, x, "log10"); sym_check(errno == 0, "no error"); } else { mbad<N>(ln(x), n, EDOM, "ln"); errno = 0; mbad<N>(log2(x), n, EDOM, "log2"); errno = 0; mbad<N>(log10(x), n, EDOM, "log10"); } }
	if (k == 5) { one<N>(atan(x), sym_atan(a), 1 / (1 + a * a), x, "atan"); if (a > -1 && a < 1) { real r = sym_sqrt(1 - a * a); one<N>(asin(x), th::asin(a), 1 / r, x, "asin"); one<N>(acos(x), th::acos(a), -1 / r, x, "acos"); sym_check(errno == 0, "no error"); } else { mbad<N>(asin(x), n, EDOM, "asin"); errno = 0; mbad<N>(acos(x), n, EDOM, "acos"); } }
}
HARNESS(m_functions, "t=60", "multidual functions of fixed size 2: value and gradient on the domain, errors outside it") { funcs<2>(2, (int) sym_choose("k", 0, 5)); }
HARNESS(m_functions_dynamic, "t=60", "multidual functions of dynamic size 2: value and gradient on the domain, errors outside it") { funcs<0>(2, (int) sym_choose("k", 0, 5)); }
template<unsigned N> static void arg(int n) {
	vec<real, N> x; x.resize(n); for (int i = 0; i < n; ++i) x[i] = sym_real(nm("x", i)); vec<multidual<N>, N> a = multidual<N>::make_argument(x), b = autodiff::make_autodiff_arg<multidual<N>>(x); sym_check((int) a.size() == n && (int) b.size() == n, "size"); for (int i = 0; i < n; ++i) { sym_eq(a[i].Re(), x[i], "value"); sym_eq(b[i].Re(), x[i], "value"); for (int j = 0; j < n; ++j) { sym_eq(a[i].Dual()[j], i == j, "identity"); sym_eq(b[i].Dual()[j], i == j, "identity"); } }
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a[i].Dual()[j] = sym_real(nm("d", i, j)); vec<real, N> y = multidual<N>::extract_real(a), z; mat<real, N, N> J = multidual<N>::extract_dual(a), K; z.resize(n); K.resize(n, n); multidual<N>::extract(a, z, K); for (int i = 0; i < n; ++i) { sym_eq(y[i], x[i], "extract_real"); sym_eq(z[i], x[i], "extract"); for (int j = 0; j < n; ++j) { sym_eq(J(i, j), a[i].Dual()[j], "extract_dual"); sym_eq(K(i, j), a[i].Dual()[j], "extract"); } }
}
HARNESS(m_arguments, "t=60", "make_argument seeds the identity and the extraction functions return values and Jacobian, sizes 1..3, fixed and dynamic") { arg<3>(3); arg<0>((int) sym_choose("n", 1, 3)); }
HARNESS(large_ring, "t=90", "multidual with 5 (dynamic) and 8 (fixed) derivatives: every operation in every form") { if (sym_choose("k", 0, 1)) ring<0>(5); else ring<8>(8); }
HARNESS(large_functions, "t=60", "multidual functions with 5 (dynamic) and 8 (fixed) derivatives") { int k = (int) sym_choose("k", 0, 5); if (sym_choose("d", 0, 1)) funcs<0>(5, k); else funcs<8>(8, k); }
HARNESS(large_arguments, "t=60", "make_argument and extraction, dynamic sizes 4..9, fixed size 8") { int n = (int) sym_choose("n", 4, 10); if (n == 10) arg<8>(8); else arg<0>(n); }
HARNESS(large_powers, "t=60", "pow(x, n) of dual2 and multidual, n = 8..20, -4..-9, x among six fixed values with arbitrary derivatives") {
	static const real X[] = {1, -1, 2, -0.5, 1.5, -3}; int n = (int) sym_choose("n", -9, 20), c = (int) sym_choose("x", 0, 5); if (n > -4 && n < 8) return; dual2 x(X[c], sym_real("b"), sym_real("c")); real a = x.a, p = 1; for (int i = 0; i < (n < 0 ? -n : n); ++i) p *= a; if (n < 0) p = 1 / p; dual2 r = pow(x, n); real d1 = n * p / a, d2 = n * (n - 1) * p / (a * a), s = p < 0 ? -p : p; sym_near(r.a / s, p / s, 1e-9, "value"); sym_near(r.b / s, d1 * x.b / s, 1e-7 * (x.b < 0 ? -x.b : x.b), "first"); sym_near(r.c / s, (d2 * x.b * x.b + d1 * x.c) / s, 1e-7 * (x.b * x.b + (x.c < 0 ? -x.c : x.c)), "second");
	multidual<2> y = min_<2>("y", 2); y.a = a; multidual<2> q = pow(y, n); sym_near(q.a / s, p / s, 1e-9, "multidual"); for (int i = 0; i < 2; ++i) { real v = y.Dual()[i]; sym_near(q.Dual()[i] / s, d1 * v / s, 1e-7 * (v < 0 ? -v : v), "gradient"); }
}
static real ab2(real x) { return x < 0 ? -x : x; }
HARNESS(range, "t=60 mode=fp libm", "multidual exp, sinh, cosh, tanh at +-0.001 .. +-800 in floating point: the values agree with the real functions, the derivatives of sinh and cosh with cosh and sinh, tanh tends to +-1 with null derivative") {
	static const real X[] = {0.001, 0.5, 1, 5, 20, 37, 300, 600, 700, 800, 5000}; int c = (int) sym_choose("x", 0, 10), s = (int) sym_choose("s", 0, 1); real x = s ? X[c] : -X[c]; multidual<2> d(x, {3.0, -2.0}), t = tanh(d), h = sinh(d), k = cosh(d); real q = th::tanh(x); errno = 0;
	sym_check(t.Re() - q <= 1e-12 && q - t.Re() <= 1e-12, "tanh"); real ch = X[c] < 350 ? th::cosh(x) : 0, e = ch ? 3 / (ch * ch) : 0; sym_check(t.Dual()[0] >= 0 && t.Dual()[0] <= e * (1 + 1e-9) + 1e-200 && t.Dual()[0] >= e * (1 - 1e-9) - 1e-200 && ab2(t.Dual()[1] * -1.5 - t.Dual()[0]) <= 1e-9 * e + 1e-200, "derivative of tanh");
	if (X[c] <= 700) { real a = th::sinh(x), b = th::cosh(x); sym_check(ab2(h.Re() - a) <= 1e-9 * ab2(a) && ab2(h.Dual()[0] - 3 * b) <= 1e-9 * b && ab2(h.Dual()[1] + 2 * b) <= 1e-9 * b && ab2(k.Re() - b) <= 1e-9 * b && ab2(k.Dual()[0] - 3 * a) <= 1e-9 * ab2(a), "sinh and cosh"); }
	else sym_check(!sym_isnan(h.Re()) && !sym_isnan(h.Dual()[0]) && !sym_isnan(k.Re()) && !sym_isnan(k.Dual()[0]), "sinh and cosh overflow");
}
HARNESS(huge_powers, "t=60", "pow of second-order and multivariate duals, n = -12..24 and +-{31, 32, 33, 50, 64, 100}, at six fixed values with any derivative") {
	static const real X[] = {1, -1, 2, -0.5, 1.5, -3}; static const int N[] = {31, 32, 33, 50, 64, 100}; int n = (int) sym_choose("n", -12, 36), c = (int) sym_choose("x", 0, 5); if (n > 24) n = n < 31 ? N[n - 25] : -N[n - 31]; real a = X[c], b = sym_real_in("b", -4, 4), d = sym_real_in("d", -4, 4), p = 1; for (int i = 0; i < (n < 0 ? -n : n); ++i) p *= a; if (n < 0) p = 1 / p; real s = ab2(p);
	dual2 x(a, b, d), r = pow(x, n); sym_near(r.Re() / s, p / s, 1e-9, "value"); sym_near(r.Dual1() / s, n * p / a * b / s, 1e-6, "first derivative"); sym_near(r.Dual2() / s, (n * p / a * d + n * (n - 1.0) * p / (a * a) * b * b) / s, 1e-3, "second derivative");
	multidual<2> y(a, {b, d}), q = pow(y, n); sym_near(q.Re() / s, p / s, 1e-9, "value"); sym_near(q.Dual()[0] / s, n * p / a * b / s, 1e-6, "partial derivative"); sym_near(q.Dual()[1] / s, n * p / a * d / s, 1e-6, "partial derivative");
}
template<unsigned N> static void constants(int n) {
	typedef multidual<N> M; M x = min_<N>("x", n); real c = sym_real("c"), a = x.a; sym_assume(c >= 1e-9 || c <= -1e-9); sym_assume(a >= 1e-9 || a <= -1e-9); M k(c); errno = 0;
	one<N>(x + k, a + c, 1, x, "x + k"); one<N>(k + x, a + c, 1, x, "k + x"); one<N>(x - k, a - c, 1, x, "x - k"); one<N>(k - x, c - a, -1, x, "k - x"); one<N>(x * k, a * c, c, x, "x k"); one<N>(k * x, a * c, c, x, "k x"); one<N>(x / k, a / c, 1 / c, x, "x / k"); one<N>(k / x, c / a, -c / (a * a), x, "k / x");
	M z = x; z += k; one<N>(z, a + c, 1, x, "+= k"); z = x; z -= k; one<N>(z, a - c, 1, x, "-= k"); z = x; z *= k; one<N>(z, a * c, c, x, "*= k"); z = x; z /= k; one<N>(z, a / c, 1 / c, x, "/= k"); z = k; z += x; one<N>(z, a + c, 1, x, "k +="); z = k; z -= x; one<N>(z, c - a, -1, x, "k -="); z = k; z *= x; one<N>(z, a * c, c, x, "k *="); z = k; z /= x; one<N>(z, c / a, -c / (a * a), x, "k /=");
	M w; w = c; w *= x; one<N>(w, a * c, c, x, "assigned constant"); w = k; w = c; sym_eq(w.Re(), c, "assigned"); vec<real, N> d = w.Dual(); for (unsigned i = 0; i < d.size(); ++i) sym_eq(d[i], 0, "assigned"); sym_eq((k * k + k / k - k).Re(), c * c + 1 - c, "constants"); sym_eq(sqrt(square(k)).Re() * sqrt(square(k)).Re(), c * c, "functions of constants"); sym_check(errno == 0, "no error");
	M y = x; sym_check(y == x, "equality"); y.Dual()[n - 1] += 1; sym_check(!(y == x), "different derivative"); y = x; y.Re() += 1; sym_check(!(y == x), "different value"); y = x; y.resize(n); one<N>(y, a, 1, x, "resize");
}
HARNESS(m_constants, "t=60", "multidual numbers made from a real combine with any other, on either side and in compound forms, as constants; comparison and assignment, fixed and dynamic sizes 1..4") { int n = (int) sym_choose("n", 1, 4); if (n == 4) constants<3>(3); else constants<0>(n); }
HARNESS(m_extract_constants, "t=60", "extraction of the values and Jacobian of dynamic components one of which is constant") {
	int n = (int) sym_choose("n", 1, 4), k = (int) sym_choose("k", 0, n - 1); vec<real> x(n); for (int i = 0; i < n; ++i) x[i] = sym_real(nm("x", i)); auto a = multidual<>::make_argument(x); real c = sym_real("c"); a[k] = multidual<>(c); auto y = multidual<>::extract_real(a); auto J = multidual<>::extract_dual(a); vec<real> z; mat<real> K; multidual<>::extract(a, z, K);
	for (int i = 0; i < n; ++i) { sym_eq(y[i], i == k ? c : x[i], "value"); sym_eq(z[i], y[i], "value"); for (int j = 0; j < n; ++j) { sym_eq(J(i, j), i == j && i != k, "Jacobian"); sym_eq(K(i, j), i == j && i != k, "Jacobian"); } }
}
template<unsigned N> static void alias(int n) {
	typedef multidual<N> M; M x = min_<N>("x", n), z; real a = x.a; sym_assume(a > 1e-3 || a < -1e-3); z = x; z += z; one<N>(z, 2 * a, 2, x, "+= self"); z = x; z -= z; one<N>(z, 0, 0, x, "-= self"); z = x; z /= z; one<N>(z, 1, 0, x, "/= self"); z = x; z *= z.a; one<N>(z, a * a, a, x, "*= part"); z = x; z /= z.a; one<N>(z, 1, 1 / a, x, "/= part"); z = x; z += z.a; one<N>(z, 2 * a, 1, x, "+= part"); z = x; z = z; one<N>(z, a, 1, x, "= self"); z = x; z = z * z - z; one<N>(z, a * a - a, 2 * a - 1, x, "assigned");
}
HARNESS(aliased, "t=60", "second-order and multivariate dual numbers combined in place with themselves or with their own parts, 1..3 derivatives, fixed and dynamic") {
	int n = (int) sym_choose("n", 1, 4); if (n == 4) alias<2>(2); else alias<0>(n); dual2 x(sym_real("a"), sym_real("b"), sym_real("c")), z; real a = x.a, b = x.b, c = x.c; sym_assume(a > 1e-3 || a < -1e-3); z = x; z += z; eq(z, 2 * a, 2 * b, 2 * c, "+= self"); z = x; z -= z; eq(z, 0, 0, 0, "-= self"); z = x; z /= z; eq(z, 1, 0, 0, "/= self"); z = x; z *= z.a; eq(z, a * a, b * a, c * a, "*= part"); z = x; z /= z.a; eq(z, 1, b / a, c / a, "/= part"); z = x; z = z * z - z; eq(z, a * a - a, 2 * a * b - b, 2 * a * c + 2 * b * b - c, "assigned");
}
