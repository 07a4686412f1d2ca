// C08 complex numbers
#include "sym.h"
#include <array>
#include "theoretica.h"
using namespace theoretica;
namespace th = theoretica;
typedef complex<real> cx;
static cx cin_(const char* n) { return cx(sym_real(nm(n, 0)), sym_real(nm(n, 1))); }
static void ceq(const cx& z, real a, real b, const char* id) { sym_eq(z.a, a, id); sym_eq(z.b, b, id); }

HARNESS(ring, "t=60", "complex + - * and compound forms, with complex and real operands on both sides, are field operations, every operand") {
	cx z = cin_("z"), w = cin_("w");
	real k = sym_real("k");
	real a = z.a, b = z.b, c = w.a, d = w.b;
	ceq(z + w, a + c, b + d, "+"); ceq(z - w, a - c, b - d, "-"); ceq(z * w, a * c - b * d, a * d + b * c, "*");
	ceq(-z, -a, -b, "neg"); ceq(+z, a, b, "plus");
	ceq(z + k, a + k, b, "z+k"); ceq(z - k, a - k, b, "z-k"); ceq(z * k, a * k, b * k, "z*k");
	ceq(k + z, a + k, b, "k+z"); ceq(k - z, k - a, -b, "k-z"); ceq(k * z, a * k, b * k, "k*z");
	cx t = z; t += w; ceq(t, a + c, b + d, "+=");
	t = z; t -= w; ceq(t, a - c, b - d, "-=");
	t = z; t *= w; ceq(t, a * c - b * d, a * d + b * c, "*=");
	t = z; t += k; ceq(t, a + k, b, "+= k");
	t = z; t -= k; ceq(t, a - k, b, "-= k");
	t = z; t *= k; ceq(t, a * k, b * k, "*= k");
	ceq(z, a, b, "operand unchanged"); ceq(w, c, d, "operand unchanged");
}
HARNESS(aliasing, "t=60", "compound operators with the object itself as operand") {
	cx z = cin_("z");
	real a = z.a, b = z.b;
	cx t = z; t += t; ceq(t, 2 * a, 2 * b, "+= self");
	t = z; t -= t; ceq(t, 0, 0, "-= self");
	t = z; t *= t; ceq(t, a * a - b * b, 2 * a * b, "*= self");
	sym_assume(a * a + b * b > 1e-9);
	t = z; t /= t; ceq(t, 1, 0, "/= self");
}
HARNESS(division, "t=60", "(z / w) w = z, inverse(w) w = 1, in all forms, for every |w|^2 >= 2^-52; real divisors |k| >= 2^-52") {
	cx z = cin_("z"), w = cin_("w");
	real n = w.a * w.a + w.b * w.b;
	sym_assume(n >= MACH_EPSILON);
	errno = 0;
	real ra = (z.a * w.a + z.b * w.b) / n, rb = (z.b * w.a - z.a * w.b) / n;
	ceq(z / w, ra, rb, "/");
	cx t = z; t /= w; ceq(t, ra, rb, "/=");
	ceq(w.inverse(), w.a / n, -w.b / n, "inverse");
	t = w; t.invert(); ceq(t, w.a / n, -w.b / n, "invert");
	ceq(th::inverse(w), w.a / n, -w.b / n, "free inverse");
	real k = sym_real("k");
	ceq(k / w, k * w.a / n, -k * w.b / n, "k/z");
	sym_assume(k >= MACH_EPSILON || k <= -MACH_EPSILON);
	ceq(z / k, z.a / k, z.b / k, "z/k");
	t = z; t /= k; ceq(t, z.a / k, z.b / k, "/= k");
	sym_check(errno == 0, "no error");
}
HARNESS(division_by_zero, "t=60", "dividing by zero gives NaN parts and an errno, in all forms") {
	cx z = cin_("z"), o(0, 0);
	errno = 0; cx t = z / o; sym_check(sym_isnan(t.a) && sym_isnan(t.b) && errno == ERANGE, "/");
	errno = 0; t = z; t /= o; sym_check(sym_isnan(t.a) && sym_isnan(t.b) && errno == ERANGE, "/=");
	errno = 0; t = z / 0.0; sym_check(sym_isnan(t.a) && sym_isnan(t.b) && errno == ERANGE, "/ k");
	errno = 0; t = z; t /= 0.0; sym_check(sym_isnan(t.a) && sym_isnan(t.b) && errno == ERANGE, "/= k");
	errno = 0; t = o.inverse(); sym_check(sym_isnan(t.a) && sym_isnan(t.b) && errno == ERANGE, "inverse");
	errno = 0; t = o; t.invert(); sym_check(sym_isnan(t.a) && sym_isnan(t.b) && errno == ERANGE, "invert");
	errno = 0; t = sym_real("r") / o; sym_check(sym_isnan(t.a) && sym_isnan(t.b) && errno == ERANGE, "r /");
	errno = 0; t = th::inverse(o); sym_check(sym_isnan(t.a) && sym_isnan(t.b) && errno == ERANGE, "free inverse");
}
HARNESS(parts, "t=60", "Re, Im, conjugate, norms, constructors, equality, conversion") {
	cx z = cin_("z"), w = cin_("w");
	const cx y = z;
	sym_eq(z.Re(), z.a, "Re"); sym_eq(z.Im(), z.b, "Im"); sym_eq(y.Re(), z.a, "Re const"); sym_eq(y.Im(), z.b, "Im const");
	sym_eq(Re(z), z.a, "Re"); sym_eq(Im(z), z.b, "Im"); sym_eq(Re(y), z.a, "Re"); sym_eq(Im(y), z.b, "Im");
	ceq(z.conjugate(), z.a, -z.b, "conjugate"); ceq(th::conjugate(z), z.a, -z.b, "free conjugate");
	ceq(th::identity(z), z.a, z.b, "identity");
	sym_eq(z.sqr_norm(), z.a * z.a + z.b * z.b, "sqr_norm");
	real n = z.norm();
	sym_eq(n * n, z.a * z.a + z.b * z.b, "norm"); sym_le(0, n, "norm >= 0");
	sym_eq(th::abs(z), n, "abs");
	sym_check((z == w) == (z.a == w.a && z.b == w.b), "==");
	sym_check((z != w) == !(z.a == w.a && z.b == w.b), "!=");
	ceq(cx(), 0, 0, "default"); ceq(cx(z.a), z.a, 0, "real"); ceq(cx::i(), 0, 1, "i"); ceq(cx(z), z.a, z.b, "copy");
	std::array<real, 2> ar; ar[0] = w.a; ar[1] = w.b;
	cx t; t = ar; ceq(t, w.a, w.b, "array");
	t.Re() = z.b; t.Im() = z.a; ceq(t, z.b, z.a, "writable parts");
	cx q(z.a, 0); sym_eq((real) q, z.a, "to real");
	if (z.b >= 1) { cx v = z; sym_check(sym_isnan((real) v), "to real of a non-real"); }
}
HARNESS(multiplicative_norm, "t=60", "|zw|^2 = |z|^2 |w|^2, z conj(z) = |z|^2, conj(zw) = conj z conj w") {
	cx z = cin_("z"), w = cin_("w");
	sym_eq((z * w).sqr_norm(), z.sqr_norm() * w.sqr_norm(), "norm");
	ceq(z * z.conjugate(), z.a * z.a + z.b * z.b, 0, "z conj z");
	cx l = (z * w).conjugate(), r = z.conjugate() * w.conjugate();
	ceq(l, r.a, r.b, "conj");
}
HARNESS(arg_quadrants, "t=60", "arg is the angle in (-pi, pi] in every quadrant and on every half axis") {
	cx z = cin_("z");
	real a = z.a, b = z.b;
	sym_assume(a == 0 || a >= 1e-6 || a <= -1e-6);
	sym_assume(b == 0 || b >= 1e-6 || b <= -1e-6);
	sym_assume(a != 0 || b != 0);
	real t = z.arg();
	if (b == 0) sym_eq(t, a > 0 ? 0.0 : PI, "real axis");
	else if (a == 0) sym_eq(t, b > 0 ? PI / 2 : -PI / 2, "imaginary axis");
	else if (a > 0) sym_eq(t, sym_atan(b / a), "right half plane");
	else sym_eq(t, sym_atan(b / a) + (b > 0 ? PI : -PI), "left half plane");
}
HARNESS(polynomials, "t=60", "square and cube") {
	cx z = cin_("z");
	real a = z.a, b = z.b;
	ceq(th::square(z), a * a - b * b, 2 * a * b, "square");
	ceq(th::cube(z), a * a * a - 3 * a * b * b, 3 * a * a * b - b * b * b, "cube");
}
HARNESS(sqrt_inverts, "t=90", "sqrt(z)^2 = z with Re >= 0 and Im of the sign of Im z, every z in [-4,4]^2 (negative real axis and zero included)") {
	cx z(sym_real_in("a", -4, 4), sym_real_in("b", -4, 4));
	sym_assume((z.a == 0 && z.b == 0) || z.a * z.a >= 1e-6 || z.b * z.b >= 1e-6);
	cx s = th::sqrt(z);
	real n = sym_sqrt(z.a * z.a + z.b * z.b);
	sym_near(s.a * s.a * 2, n + z.a, 1e-9, "Re^2"); sym_near(s.b * s.b * 2, n - z.a, 1e-9, "Im^2");
	sym_check(s.a >= 0, "principal");
	if (z.b > 0) sym_check(s.b >= 0, "upper half plane");
	if (z.b < 0) sym_check(s.b <= 0, "lower half plane");
}
HARNESS(sqrt_axes, "t=60", "sqrt on the real axis: sqrt(x) for x >= 0, i sqrt(-x) below, |x| <= 100") {
	real x = sym_real_in("x", -100, 100);
	sym_assume(x == 0 || x > 1e-3 || x < -1e-3);
	cx s = th::sqrt(cx(x, 0));
	if (x >= 0) { sym_near(s.a, sym_sqrt(x), 1e-9, "positive"); sym_eq(s.b, 0, "positive, imaginary"); }
	else { sym_near(s.b, sym_sqrt(-x), 1e-9, "negative"); sym_eq(s.a, 0, "negative, real"); }
}
HARNESS(exp_ln, "t=60", "exp(z) = e^a (cos b + i sin b); ln(z) = ln|z| + i arg z; rotor") {
	cx z = cin_("z");
	real e = sym_exp(z.a), c = sym_cos(z.b), s = sym_sin(z.b);
	ceq(th::exp(z), e * c, e * s, "exp");
	ceq(cx::rotor(z.b), c, s, "rotor");
	sym_assume(z.a * z.a + z.b * z.b >= 1e-6);
	ceq(th::ln(z), sym_ln(sym_sqrt(z.a * z.a + z.b * z.b)), z.arg(), "ln");
}
HARNESS(trig, "t=60", "sin, cos, tan of a complex number in terms of real sin, cos, exp, every z") {
	cx z = cin_("z");
	real e = sym_exp(z.b), c = sym_cos(z.a), s = sym_sin(z.a);
	real ch = (e + 1 / e) / 2, sh = (e - 1 / e) / 2;
	ceq(th::sin(z), s * ch, c * sh, "sin");
	ceq(th::cos(z), c * ch, -s * sh, "cos");
	real e2 = sym_exp(2 * z.b), c2 = sym_cos(2 * z.a), s2 = sym_sin(2 * z.a);
	real ch2 = (e2 + 1 / e2) / 2, sh2 = (e2 - 1 / e2) / 2;
	sym_assume((c2 / e2 + 1) * (c2 / e2 + 1) + s2 * s2 / e2 / e2 >= MACH_EPSILON && c2 + ch2 > 0);
	ceq(th::tan(z), s2 / (c2 + ch2), sh2 / (c2 + ch2), "tan");
}
static void is_log(const cx& w, const cx& u, real f, const char* id) { // w = -i f ln u
	sym_eq(w.a, f * u.arg(), id);
	sym_eq(w.b, -f * sym_ln(sym_sqrt(u.a * u.a + u.b * u.b)), id);
}
static void inv(cx z, int k) {
	real a = z.a, b = z.b;
	cx q(a * a - b * b, 2 * a * b);
	if (k == 0) { cx s = th::sqrt(cx(1 - q.a, -q.b)); is_log(th::asin(z), cx(-b + s.a, a + s.b), 1, "asin"); }
	if (k == 1) { cx s = th::sqrt(cx(q.a - 1, q.b)); is_log(th::acos(z), cx(a + s.a, b + s.b), 1, "acos"); }
	if (k == 2) {
		real n = a * a + (1 + b) * (1 + b);
		sym_assume(n > 1e-6 && a * a + (1 - b) * (1 - b) > 1e-6);
		is_log(th::atan(z), cx((-a * a + 1 - b * b) / n, 2 * a / n), 0.5, "atan");
	}
}
HARNESS(asin_inner, "t=40 t_check=5000", "asin = -i ln(iz + sqrt(1-z^2)) on the real segment (-1,1)") { real x = sym_real_in("x", -1, 1); sym_assume(x > -1 && x < 1); inv(cx(x, 0), 0); }
HARNESS(asin_right, "t=40 t_check=5000", "asin = -i ln(iz + sqrt(1-z^2)) on the real half-line x > 1") { real x = sym_real_in("x", 1, 8); sym_assume(x > 1); inv(cx(x, 0), 0); }
HARNESS(asin_left, "t=40 t_check=5000", "asin = -i ln(iz + sqrt(1-z^2)) on the real half-line x < -1") { real x = sym_real_in("x", -8, -1); sym_assume(x < -1); inv(cx(x, 0), 0); }
HARNESS(asin_up, "t=40 t_check=5000", "asin = -i ln(iz + sqrt(1-z^2)) on the imaginary half-axis above 0") { real x = sym_real_in("x", 0, 8); sym_assume(x > 1e-9); inv(cx(0, x), 0); }
HARNESS(asin_down, "t=40 t_check=5000", "asin = -i ln(iz + sqrt(1-z^2)) on the imaginary half-axis below 0") { real x = sym_real_in("x", -8, 0); sym_assume(x < -1e-9); inv(cx(0, x), 0); }
HARNESS(asin_line, "t=40 t_check=5000 tier=thorough", "asin = -i ln(iz + sqrt(1-z^2)) on the line Re z = 1") { real x = sym_real_in("x", 0.5, 8); inv(cx(1, x), 0); }
HARNESS(acos_inner, "t=40 t_check=5000", "acos = -i ln(z + sqrt(z^2-1)) on the real segment (-1,1)") { real x = sym_real_in("x", -1, 1); sym_assume(x > -1 && x < 1); inv(cx(x, 0), 1); }
HARNESS(acos_right, "t=40 t_check=5000", "acos = -i ln(z + sqrt(z^2-1)) on the real half-line x > 1") { real x = sym_real_in("x", 1, 8); sym_assume(x > 1); inv(cx(x, 0), 1); }
HARNESS(acos_left, "t=40 t_check=5000", "acos = -i ln(z + sqrt(z^2-1)) on the real half-line x < -1") { real x = sym_real_in("x", -8, -1); sym_assume(x < -1); inv(cx(x, 0), 1); }
HARNESS(acos_up, "t=40 t_check=5000", "acos = -i ln(z + sqrt(z^2-1)) on the imaginary half-axis above 0") { real x = sym_real_in("x", 0, 8); sym_assume(x > 1e-9); inv(cx(0, x), 1); }
HARNESS(acos_down, "t=40 t_check=5000", "acos = -i ln(z + sqrt(z^2-1)) on the imaginary half-axis below 0") { real x = sym_real_in("x", -8, 0); sym_assume(x < -1e-9); inv(cx(0, x), 1); }
HARNESS(acos_line, "t=40 t_check=5000 tier=thorough", "acos = -i ln(z + sqrt(z^2-1)) on the line Re z = 1") { real x = sym_real_in("x", 0.5, 8); inv(cx(1, x), 1); }
HARNESS(atan_plane, "t=60", "atan = -(i/2) ln((i-z)/(i+z)), every z away from +-i") {
	inv(cin_("z"), 2);
}
static real mag_(real x) { return x < 0 ? -x : x; }
HARNESS(argument_scales, "mode=fp t=60", "the argument of points 1e-3 to 1e-12 from the axes (relative to the distance), and on rays at scales 1e-12 to 1e6") {
	static const real D[] = {1e-3, 1e-6, 1e-8, 2e-9, 1e-10, 1e-12}, S[] = {1, 1e-2, 40, 1e-3, 1e6}; real d = D[sym_choose("d", 0, 5)], s = S[sym_choose("s", 0, 4)]; int q = (int) sym_choose("q", 0, 4); real g = sym_choose("g", 0, 1) ? -1 : 1; if (d * s < 1e-14) return;
	if (q == 0) sym_check(mag_(cx(s, g * d * s).arg() - g * d) < 1e-6 * d, "positive axis"); else if (q == 1) sym_check(mag_(cx(-s, g * d * s).arg() - g * (PI - d)) < 1e-6 * d + 1e-15, "negative axis"); else if (q == 2) sym_check(mag_(cx(g * d * s, s).arg() - (PI / 2 - g * d)) < 1e-6 * d + 1e-15, "upper axis"); else if (q == 3) sym_check(mag_(cx(g * d * s, -s).arg() - (-PI / 2 + g * d)) < 1e-6 * d + 1e-15, "lower axis"); else { sym_check(mag_(cx(d * s, g * d * s).arg() - g * PI / 4) < 1e-7, "diagonal"); sym_check(mag_(cx(-d * s, g * d * s).arg() - g * 3 * PI / 4) < 1e-7, "second diagonal"); }
}
HARNESS(roots_scales, "mode=fp t=60", "the square root of points of scales 1e-14 to 1e10 in twelve directions squares back (relative) in the right half plane, and ln, exp are inverse at moderate scales") {
	static const real S[] = {1e-14, 1e-10, 1e-8, 3e-6, 1e-3, 1, 50, 1e5, 1e10}, A[] = {0.6, 0.8, 0.28, 0.96, 1, 0, -0.6, 0.8, -0.96, 0.28, -1, 0}; real s = S[sym_choose("s", 0, 8)]; int k = (int) sym_choose("k", 0, 5); real g = sym_choose("g", 0, 1) ? -1 : 1; cx z(A[2 * k] * s, g * A[2 * k + 1] * s), w = th::sqrt(z); cx u = w * w; sym_check(mag_(u.a - z.a) < 1e-9 * s && mag_(u.b - z.b) < 1e-9 * s, "square"); sym_check(w.a >= 0, "right half plane"); if (g * A[2 * k + 1] < 0) sym_check(w.b < 0, "sign"); else sym_check(w.b >= 0, "sign");
	cx e = th::exp(th::ln(z)); sym_check(mag_(e.a - z.a) < 1e-7 * s && mag_(e.b - z.b) < 1e-7 * s, "exp ln"); cx i = z.a * z.a + z.b * z.b > 1e-12 ? cx(1) / z * z : cx(1); sym_check(mag_(i.a - 1) < 1e-12 && mag_(i.b) < 1e-12, "inverse");
}
HARNESS(real_conversion, "mode=fp t=60", "the conversion to a real is the real part of numbers without imaginary part and NaN when there is one, down to 1e-12") {
	static const real D[] = {1e-12, 1e-9, 1e-7, 1e-3, 1, 1e5}; real d = D[sym_choose("d", 0, 5)]; if (sym_choose("g", 0, 1)) d = -d; cx z(2.5, d), w(d, 0); real r = (real) z, q = (real) w; sym_check(r != r, "not real"); sym_check(q == d, "real");
}
HARNESS(function_points, "mode=fp t=60", "sin, cos, tan, exp, square, cube at fixed points: sin^2 + cos^2 = 1, tan cos = sin, exp(z) exp(-z) = 1, sin 2z = 2 sin z cos z, relative to their size") {
	static const real X[] = {0, 1e-7, -1e-4, 0.3, -1.2, 2.5, -3, 10}, Y[] = {0, 1e-8, -1e-4, 0.5, -2, 4, -7, 15, -8.5, 9.5, -10}; cx z(X[sym_choose("x", 0, 7)], Y[sym_choose("y", 0, 10)]); cx s = th::sin(z), c = th::cos(z), t = th::tan(z), e = th::exp(z), f = th::exp(-z), d = th::sin(z * 2.0), C = th::cube(z), S = th::square(z); auto rel = [](cx a, cx b, real n) { return mag_(a.a - b.a) <= 1e-10 * n && mag_(a.b - b.b) <= 1e-10 * n; };
	real n = s.sqr_norm() + c.sqr_norm(); sym_check(rel(s * s + c * c, cx(1), 1 + n), "sin^2 + cos^2"); sym_check(rel(t * c, s, 1e-3 * n + 1e-4 + mag_(s.a) + mag_(s.b)), "tan"); sym_check(rel(e * f, cx(1), 1), "exp"); sym_check(rel(d, s * c * 2.0, 1e-4 + n), "sin 2z"); sym_check(rel(C, S * z, 1e-30 + mag_(C.a) + mag_(C.b)), "cube"); sym_check(rel(S, z * z, 1e-30 + z.sqr_norm()), "square");
}
